// Locations: line and column by counting, anchors, comparison, line annotations.
#include "acc.hpp"
#include "refcp.hpp"
#include <lexy/input_location.hpp>
using namespace ref;
using vp::P;
namespace
{
template <typename C> struct Loc { unsigned line = 1, col = 1; const C* begin; const C* line_begin; };
// a letter, the newline units and one lead unit each of two, three and four with a continuation
template <typename C> inline void narrow()
{
    auto unit = [](unsigned u) { auto c = int64_t(u); vp_tape_domain_add(c, c); };
    vp_tape_domain('a', 'a');
    unit('\n'); unit('\r'); unit(0x9F); unit(0xC3); unit(0xE2); unit(0xF1);
}
template <typename Counting, typename... T> inline auto locate(const T&... t)
{
    if constexpr (std::is_void_v<Counting>) return lexy::get_input_location(t...);
    else return lexy::get_input_location<Counting>(t...);
}
enum Kind { Unit, Point, Byte };
// length of the newline at p
template <typename C> inline int nl(const C* p) { Cur<C> c{p}; if (c.eat('\n')) return 1; if (c.eat('\r') && c.is('\n')) return 2; return 0; }
template <Kind K, int Width, typename Enc, typename C>
inline Loc<C> count(const C* p, const C* pos)
{
    Loc<C> l;
    l.begin = l.line_begin = p;
    while (l.begin != pos)
    {
        int  n   = 1;
        bool brk = false;
        if constexpr (K == Byte)
        {
            brk = l.col == Width;
        }
        else
        {
            n   = nl(l.begin);
            brk = n > 0;
            if (!brk)
            {
                n = 1;
                if constexpr (K == Point)
                {
                    auto r = refcp::refof(Enc{}, l.begin);
                    n      = r.units > 0 ? r.units : 1;
                }
            }
        }
        if (l.begin + n > pos) break; // inside
        l.begin += n;
        if (brk) { ++l.line; l.col = 1; l.line_begin = l.begin; }
        else ++l.col;
    }
    return l;
}
template <typename Enc, typename Counting, Kind K, int Width = 0, bool Narrow = false>
inline void location(int n)
{
    using C = typename Enc::char_type;
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    vp_tape(sizeof(C), -1, 0);
    if constexpr (Narrow) narrow<C>(); else vp::domain<Enc>();
    auto input = vp::tape_input<Enc>();
    auto b     = input.data();
    vp_cover_decl("done");
    auto q = b;
    while (!vp_at_end(q) && vp_choice(2)) ++q;
    auto p = q; // q <= p
    while (!vp_at_end(p) && vp_choice(2)) ++p;
    auto ref_q = count<K, Width, Enc>(b, q);
    auto ref_p = count<K, Width, Enc>(b, p);
    auto first = locate<Counting>(input, q);
    VP_CHECK("C23", first.line_nr() == ref_q.line, "wrong line number");
    VP_CHECK("C23", first.column_nr() == ref_q.col, "wrong column number");
    VP_CHECK("C23", P(first.position()) == P(ref_q.begin), "position is not the start of the column");
    auto second = locate<Counting>(input, p, first.anchor());
    VP_CHECK("C23", second.line_nr() == ref_p.line, "wrong line number when starting at an anchor");
    VP_CHECK("C23", second.column_nr() == ref_p.col, "wrong column number when starting at an anchor");
    VP_CHECK("C23", P(second.position()) == P(ref_p.begin), "position is not the start of the column when starting at an anchor");
    bool less = P(ref_q.begin) < P(ref_p.begin);
    VP_CHECK("C23", (first == second) == !less && (first != second) == less, "equality of locations");
    VP_CHECK("C23", (first < second) == less && (second > first) == less && (first >= second) == !less && (second <= first) == !less && first <= second && second >= first, "order of locations");
    decltype(first) start(input);
    VP_CHECK("C23", start.line_nr() == 1 && start.column_nr() == 1 && P(start.position()) == P(b), "location of the start");
    vp_cover("done");
}
template <typename Enc, typename C>
inline bool cont(C c)
{
    if (std::is_same_v<Enc, lexy::utf16_encoding>) return vp_split((unsigned(c) & 0xFC00u) == 0xDC00u);
    if (sizeof(C) == 1 && !std::is_same_v<Enc, lexy::ascii_encoding> && !std::is_same_v<Enc, lexy::byte_encoding> && !std::is_same_v<Enc, lexy::default_encoding>) return vp_split((unsigned(c) & 0xC0u) == 0x80u);
    return false;
}
// Annotation of [begin of the location of q, p): split into before, annotated, after.
template <typename Enc, typename Counting, Kind K, int Width = 0, bool Narrow = false>
inline void annotation(int n, bool size)
{
    using C = typename Enc::char_type;
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    vp_tape(sizeof(C), -1, 0);
    if constexpr (Narrow) narrow<C>(); else vp::domain<Enc>();
    auto input = vp::tape_input<Enc>();
    auto b     = input.data();
    vp_cover_decl("one line");
    vp_cover_decl("truncated");
    auto q = b;
    while (!vp_at_end(q) && vp_choice(2)) ++q;
    auto loc = lexy::get_input_location<Counting>(input, q);
    auto ref = count<K, Width, Enc>(b, q);
    // the line: its end and the end of its newline
    auto le = ref.line_begin;
    auto ne = le;
    if (K == Byte)
    {
        for (int i = 0; i < Width && !vp_at_end(ne); ++i) ++ne;
        le = ne;
        if (ne - ref.line_begin == Width) --le; // the last byte stands for the newline
    }
    else
    {
        while (!vp_at_end(le) && !nl(le)) ++le;
        ne = vp_at_end(le) ? le : le + nl(le);
    }
    // the end asked for
    auto p = ref.begin;
    int  k = 0;
    while (!vp_at_end(p) && vp_choice(2)) { ++p; ++k; }
    auto begin = ref.begin;
    auto end   = p;
    bool trunc = end > ne;
    if (begin == end)
    {
        if (end == le) end = ne;
        else if (end != ne) ++end;
    }
    else if (trunc) end = ne;
    auto rounded = end;
    while (rounded != ne && cont<Enc>(*rounded)) ++rounded;
    auto a = size ? lexy::get_input_line_annotation(input, loc, std::size_t(k)) : lexy::get_input_line_annotation(input, loc, p);
    if (rounded > le) rounded = ne;
    VP_CHECK("C23", P(a.before.begin()) == P(ref.line_begin) && P(a.before.end()) == P(begin), "annotation: before is not the start of the line up to the position");
    VP_CHECK("C23", P(a.annotated.begin()) == P(begin) && P(a.annotated.end()) == P(rounded), "annotation: wrong annotated range");
    VP_CHECK("C23", P(a.after.begin()) == P(rounded) && P(a.after.end()) == P(rounded > le ? ne : le), "annotation: after is not the rest of the line");
    VP_CHECK("C23", a.truncated_multiline == trunc, "annotation: truncated_multiline");
    vp_cover(trunc ? "truncated" : "one line");
}
} // namespace
#define LOC(name, enc, cnt, kind, n) WITNESS(loc_##name) { location<lexy::enc, lexy::cnt, kind>(n); }
LOC(unit_d, default_encoding, code_unit_location_counting, Unit, 5)
LOC(unit_8, utf8_encoding, code_unit_location_counting, Unit, 5)
LOC(unit_16, utf16_encoding, code_unit_location_counting, Unit, 5)
LOC(unit_32, utf32_encoding, code_unit_location_counting, Unit, 5)
LOC(unit_a, ascii_encoding, code_unit_location_counting, Unit, 5)
LOC(point_8, utf8_encoding, code_point_location_counting, Point, 3)
LOC(point_8c, utf8_char_encoding, code_point_location_counting, Point, 3)
LOC(point_16, utf16_encoding, code_point_location_counting, Point, 4)
LOC(point_32, utf32_encoding, code_point_location_counting, Point, 4)
LOC(point_a, ascii_encoding, code_point_location_counting, Point, 5)
WITNESS(loc_byte3) { location<lexy::byte_encoding, lexy::byte_location_counting<3>, Byte, 3>(8); }
WITNESS(loc_byte2) { location<lexy::byte_encoding, lexy::byte_location_counting<2>, Byte, 2>(6); }
WITNESS(loc_byte1) { location<lexy::byte_encoding, lexy::byte_location_counting<1>, Byte, 1>(4); }
WITNESS(loc_byte16) { location<lexy::byte_encoding, lexy::byte_location_counting<>, Byte, 16>(18); }
#define ANN(name, enc, cnt, kind, n) WITNESS(ann_##name) { annotation<lexy::enc, lexy::cnt, kind>(n, false); } WITNESS(anns_##name) { annotation<lexy::enc, lexy::cnt, kind>(n, true); }
ANN(unit_d, default_encoding, code_unit_location_counting, Unit, 5)
ANN(point_8, utf8_encoding, code_point_location_counting, Point, 3)
ANN(unit_8, utf8_encoding, code_unit_location_counting, Unit, 4)
ANN(point_16, utf16_encoding, code_point_location_counting, Point, 4)
ANN(point_32, utf32_encoding, code_point_location_counting, Point, 4)
WITNESS(ann_byte3) { annotation<lexy::byte_encoding, lexy::byte_location_counting<3>, Byte, 3>(7, false); }
WITNESS(anns_byte3) { annotation<lexy::byte_encoding, lexy::byte_location_counting<3>, Byte, 3>(7, true); }
#define LOCN(name, enc, cnt, kind, n) WITNESS(loc_##name) { location<lexy::enc, lexy::cnt, kind, 0, true>(n); }
LOCN(npoint_8, utf8_encoding, code_point_location_counting, Point, 4)
LOCN(npoint_8c, utf8_char_encoding, code_point_location_counting, Point, 4)
WITNESS(ann_npoint_8) { annotation<lexy::utf8_encoding, lexy::code_point_location_counting, Point, 0, true>(4, false); }
WITNESS(anns_npoint_8) { annotation<lexy::utf8_char_encoding, lexy::code_point_location_counting, Point, 0, true>(4, true); }
WITNESS(loc_default_c) { location<lexy::default_encoding, void, Unit>(4); }
WITNESS(loc_default_8) { location<lexy::utf8_encoding, void, Unit>(4); }
WITNESS(loc_default_b) { location<lexy::byte_encoding, void, Byte, 16>(18); }
