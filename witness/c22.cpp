// Binary rules.
#include "val.hpp"
using E = lexy::byte_encoding;
template <typename T>
static unsigned u(T b) { return (unsigned char)b; }
template <typename Prod, unsigned N, bool Big>
static void bint()
{
    vp_retain(N + 2); vp_maxlen(N + 1); vp_exact();
    auto input  = vp::tape_input<E>();
    auto reader = input.reader();
    auto begin  = reader.position();
    vp::Seen seen;
    auto r = vp::parse<Prod>(reader, seen);
    vp_cover_decl("value"); vp_cover_decl("short");
    unsigned have = 0;
    while (have < N && !vp_at_end(begin + have)) ++have;
    if (have == N)
    {
        VP_CHECK("C22", r.ok && seen.errors == 0, "enough bytes are rejected");
        VP_CHECK("C22", vp_pos(reader.position()) == vp_pos(begin + N), "a binary integer consumes the wrong number of bytes");
        uint64_t v = 0;
        for (unsigned i = 0; i < N; ++i) v = v * 256 + u(begin[Big ? i : N - 1 - i]);
        VP_CHECK("C22", r.value == v, "a binary integer has the wrong value");
        vp_cover("value");
    }
    else
    {
        VP_CHECK("C22", !r.ok, "a binary integer is read from too few bytes");
        VP_CHECK("C22", seen.errors >= 1 && vp_pos(seen.pos) == vp_pos(begin + have), "the error of a short binary integer is not at the missing byte");
        vp_cover("short");
    }
}
#define BINT(name, N, big) \
    struct p_##name { static constexpr auto rule = dsl::name; static constexpr auto value = lexy::as_integer<uint64_t>; }; WITNESS(name) { bint<p_##name, N, big>(); } \
    struct p_##name##_br { static constexpr auto rule = dsl::name >> dsl::nullopt | dsl::else_ >> dsl::name + dsl::nullopt; static constexpr auto value = lexy::callback<uint64_t>([](uint64_t x, lexy::nullopt) { return x; }); }; WITNESS(name##_br) { bint<p_##name##_br, N, big>(); } \
    struct p_##name##_tok { static constexpr auto rule = dsl::name(dsl::bytes<N>); static constexpr auto value = lexy::as_integer<uint64_t>; }; WITNESS(name##_tok) { bint<p_##name##_tok, N, big>(); }
BINT(bint8, 1, false)
BINT(bint16, 2, false) // native: little on the target that is analysed
BINT(bint32, 4, false)
BINT(bint64, 8, false)
BINT(little_bint16, 2, false)
BINT(little_bint32, 4, false)
BINT(little_bint64, 8, false)
BINT(big_bint16, 2, true)
BINT(big_bint32, 4, true)
BINT(big_bint64, 8, true)
// a token of another length
struct p_mis { static constexpr auto rule = dsl::big_bint16(dsl::bytes<3>); static constexpr auto value = lexy::as_integer<uint64_t>; };
WITNESS(mismatch)
{
    vp_retain(6); vp_maxlen(4); vp_exact();
    auto input = vp::tape_input<E>(); auto reader = input.reader();
    vp::Seen seen; auto r = vp::parse<p_mis>(reader, seen);
    VP_CHECK("C22", !r.ok && seen.errors >= 1, "a byte count other than the integer's is accepted");
    vp_cover_decl("failure"); vp_cover("failure");
}
// bits, bytes with predicates, padding: accepted exactly on the pattern
template <typename Prod, typename F>
static void one(unsigned N, F ok)
{
    vp_retain(int(N + 2)); vp_maxlen(int(N + 1)); vp_exact();
    auto input = vp::tape_input<E>(); auto reader = input.reader(); auto begin = reader.position();
    vp::Seen seen; auto r = vp::parse<Prod>(reader, seen);
    vp_cover_decl("match"); vp_cover_decl("no match");
    unsigned have = 0;
    while (have < N && !vp_at_end(begin + have) && ok(u(begin[have]))) ++have;
    if (have == N)
    {
        VP_CHECK("C22", r.ok && seen.errors == 0, "matching bytes are rejected");
        VP_CHECK("C22", vp_pos(reader.position()) == vp_pos(begin + N), "a byte rule consumes the wrong number of bytes");
        vp_cover("match");
    }
    else
    {
        VP_CHECK("C22", !r.ok, "bytes that do not match are accepted");
        VP_CHECK("C22", seen.errors == 1 && vp_pos(seen.pos) == vp_pos(begin + have), "the error is not at the byte that does not match");
        vp_cover("no match");
    }
}
namespace bit = dsl::bit;
#define ONE(name, N, rule_, f) struct p_##name { static constexpr auto rule = rule_; static constexpr auto value = lexy::noop; }; WITNESS(name) { one<p_##name>(N, [](unsigned c) { return f; }); }
ONE(byte, 1, dsl::byte, true)
ONE(bytes5, 5, dsl::bytes<5>, true)
ONE(byte_range, 1, (dsl::byte.range<0x20, 0x9F>()), c >= 0x20 && c <= 0x9F)
ONE(byte_range_edge, 1, (dsl::byte.range<0x00, 0xFF>()), true)
ONE(byte_set, 1, (dsl::byte.set<0x00, 0x7F, 0x80, 0xFF>()), c == 0 || c == 0x7F || c == 0x80 || c == 0xFF)
ONE(byte_ascii, 1, dsl::byte.ascii(), c <= 0x7F)
ONE(bytes3_range, 3, (dsl::bytes<3>.range<0x80, 0xBF>()), c >= 0x80 && c <= 0xBF)
ONE(bits_all, 1, (dsl::bits(bit::_1, bit::_0, bit::_, bit::nibble<0xA>, bit::_)), (c >> 6) == 2 && ((c >> 1) & 0xF) == 0xA)
ONE(bits_any, 1, (dsl::bits(bit::any<3>, bit::_1, bit::any<4>)), (c >> 4) & 1)
ONE(bits_nib, 1, (dsl::bits(bit::nibble<0xC>, bit::_0, bit::any<2>, bit::_1)), (c >> 4) == 0xC && !(c & 8) && (c & 1))
ONE(bits_lo, 1, (dsl::bits(bit::any<4>, bit::nibble<0x3>)), (c & 15) == 3)
ONE(bits_one, 1, (dsl::bits(bit::_1, bit::any<7>)), c >= 0x80)
// padding: wrong values are recoverable errors, one each
template <typename Prod, unsigned char Pad>
static void padding(unsigned N)
{
    vp_retain(int(N + 2)); vp_maxlen(int(N + 1)); vp_exact();
    auto input = vp::tape_input<E>(); auto reader = input.reader(); auto begin = reader.position();
    vp::Seen seen; auto r = vp::parse<Prod>(reader, seen);
    vp_cover_decl("clean"); vp_cover_decl("wrong"); vp_cover_decl("short");
    unsigned have = 0, bad = 0, first = 0;
    for (; have < N && !vp_at_end(begin + have); ++have) {}
    if (have < N) { VP_CHECK("C22", !r.ok && seen.errors >= 1, "padding is accepted with too few bytes"); vp_cover("short"); return; }
    for (unsigned i = 0; i < N; ++i) if (u(begin[i]) != Pad) { if (!bad) first = i; ++bad; }
    VP_CHECK("C22", r.ok, "padding bytes with a wrong value are not recovered from");
    VP_CHECK("C22", vp_pos(reader.position()) == vp_pos(begin + N), "padding consumes the wrong number of bytes");
    VP_CHECK("C22", seen.errors == bad, "wrong padding bytes and errors do not correspond");
    if (bad) { VP_CHECK("C22", vp_pos(seen.pos) == vp_pos(begin + first), "the padding error is not at the wrong byte"); vp_cover("wrong"); }
    else vp_cover("clean");
}
struct p_pad3 { static constexpr auto rule = dsl::padding_bytes<3>; static constexpr auto value = lexy::noop; };
struct p_padff { static constexpr auto rule = dsl::padding_bytes<2, 0xFF>; static constexpr auto value = lexy::noop; };
struct p_padbr { static constexpr auto rule = dsl::padding_bytes<2, 0x20> >> dsl::nullopt | dsl::else_ >> dsl::error<tag>; static constexpr auto value = lexy::noop; };
WITNESS(pad3) { padding<p_pad3, 0>(3); }
WITNESS(padff) { padding<p_padff, 0xFF>(2); }
WITNESS(padbr) { padding<p_padbr, 0x20>(2); }
