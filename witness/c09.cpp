// Code points: decoding and encoding.
#include "gen.hpp"
#include "refcp.hpp"
#include <lexy/code_point.hpp>
#include <lexy/callback/string.hpp>
using refcp::Ref;
using refcp::refof;
struct Got { uint32_t cp; int n; };
static Got got;
// The decoded value is observed by a predicate on code points (dsl::code_point.if_), which accepts everything.
struct Observe
{
    static constexpr auto name = "observe";
    constexpr bool operator()(lexy::code_point cp) const
    {
        if (std::is_constant_evaluated()) return false; // no ASCII shortcut
        got.cp = uint32_t(cp.value());
        ++got.n;
        return true;
    }
};
struct p_seen { static constexpr auto rule = dsl::code_point.if_<Observe>(); };
struct p_plain { static constexpr auto rule = dsl::code_point; };
struct p_branch { static constexpr auto rule = dsl::code_point >> dsl::eof | dsl::else_ >> dsl::error<tag>; };
template <typename Enc, typename Prod, bool Seen>
static void decode()
{
    vp_retain(8); vp_maxlen(6); vp_exact();
    auto input = vp::tape_input<Enc>();
    got = {0, 0};
    auto reader = input.reader();
    auto begin  = reader.position();
    vp::Log log;
    bool ok = lexy::do_action<Prod, vp::Result>(vp::Handler(&log), lexy::no_parse_state, reader).ok;
    Ref  r  = refof(Enc{}, begin);
    vp_cover_decl("ok");
    vp_cover_decl("ill-formed");
    if (r.units)
    {
        VP_CHECK("C09", ok, "a well-formed sequence is rejected");
        VP_CHECK("C09", vp_pos(reader.position()) == vp_pos(begin + r.units), "a code point consumes the wrong number of code units");
        if (Seen)
        {
            VP_CHECK("C09", got.n == 1, "the predicate is not asked once");
            VP_CHECK("C09", got.cp == r.cp, "a sequence is decoded to the wrong code point");
        }
        vp_cover("ok");
    }
    else
    {
        VP_CHECK("C09", !ok, "an ill-formed sequence is accepted");
        vp_cover("ill-formed");
    }
}
#define DEC(name, enc) WITNESS(dec_##name) { decode<lexy::enc##_encoding, p_seen, true>(); } WITNESS(plain_##name) { decode<lexy::enc##_encoding, p_plain, false>(); }
DEC(utf8, utf8)
DEC(utf8c, utf8_char)
DEC(utf16, utf16)
DEC(utf32, utf32)
DEC(ascii, ascii)

// Encoding, through the string callback and its sink.
template <typename C>
struct Str
{
    using value_type = C;
    C      buf[8] = {};
    C&     operator[](size_t i) { return buf[i]; }
    size_t n       = 0;
    Str() = default;
    Str(const C* b, const C* e) { append(b, e); }
    void append(const C* b, const C* e) { for (; b != e; ++b) push_back(*b); }
    void append(Str&& s) { append(s.buf, s.buf + s.n); }
    void push_back(C c) { VP_CHECK("C09", n < 8, "encoding too long"); buf[n++] = c; }
};
template <typename Enc>
static void encode(int how)
{
    using C     = typename Enc::char_type;
    uint32_t cp = uint32_t(vp_any(21));
    vp_assume(cp <= 0x10FFFF);
    vp_assume(cp < 0xD800 || cp > 0xDFFF);
    if (sizeof(C) == 1 && std::is_same_v<Enc, lexy::ascii_encoding>) vp_assume(cp < 0x80);
    Str<C> s;
    if (how == 0) s = lexy::as_string<Str<C>, Enc>(lexy::code_point(cp));
    else { auto sink = lexy::as_string<Str<C>, Enc>.sink(); sink(lexy::code_point(cp)); s = static_cast<decltype(sink)&&>(sink).finish(); }
    unsigned need = 1; uint32_t u[4] = {cp, 0, 0, 0};
    if (sizeof(C) == 1)
    {
        if (cp < 0x80) {}
        else if (cp < 0x800) { need = 2; u[0] = 0xC0 + cp / 64; u[1] = 0x80 + cp % 64; }
        else if (cp < 0x10000) { need = 3; u[0] = 0xE0 + cp / 4096; u[1] = 0x80 + cp / 64 % 64; u[2] = 0x80 + cp % 64; }
        else { need = 4; u[0] = 0xF0 + cp / 262144; u[1] = 0x80 + cp / 4096 % 64; u[2] = 0x80 + cp / 64 % 64; u[3] = 0x80 + cp % 64; }
    }
    else if (sizeof(C) == 2 && cp >= 0x10000) { need = 2; u[0] = 0xD800 + (cp - 0x10000) / 1024; u[1] = 0xDC00 + (cp - 0x10000) % 1024; }
    VP_CHECK("C09", s.n == need, "a code point is encoded in the wrong number of code units");
    for (unsigned i = 0; i < need; ++i)
        VP_CHECK("C09", uint32_t(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>(s.buf[i])) == u[i], "a code point is encoded wrongly");
    vp_cover_decl("done"); vp_cover("done");
}
#define ENC(name, enc) WITNESS(enc_##name) { encode<lexy::enc##_encoding>(0); } WITNESS(encs_##name) { encode<lexy::enc##_encoding>(1); }
ENC(utf8, utf8)
ENC(utf8c, utf8_char)
ENC(utf16, utf16)
ENC(utf32, utf32)
ENC(ascii, ascii)
