// Visualization: everything is written once, in order, escaped where it has to be, and within the limits.
#include "vis.hpp"
#define K(cond, msg) VP_CHECK("C28", cond, msg)
using vp::Out; using vp::OutIt;
// any combination of options
static lexy::visualization_options options(bool color)
{
    lexy::visualization_options o;
    if (vp_choice(2)) o = o | lexy::visualize_use_unicode;
    if (vp_choice(2)) o = o | lexy::visualize_use_symbols;
    if (vp_choice(2)) o = o | lexy::visualize_space;
    if (color && vp_choice(2)) o = o | lexy::visualize_use_color;
    return o;
}
static Out show(lexy::code_point cp, lexy::visualization_options o) { Out out; vp::formatting = &out; auto it = lexy::visualize_to(OutIt{&out}, cp, o); K(it.o == &out, "another output iterator is returned"); return out; }
// only printable ASCII, or UTF-8 of other characters if that is allowed
static bool clean(const Out& o, bool utf8)
{
    for (int i = 0; i < o.n; ++i)
    {
        unsigned c = (unsigned char)o.s[i];
        if (vp_split(c >= 0x20 && c <= 0x7E)) continue;
        if (!utf8 || c < 0xE0 || c >= 0xF0 || i + 2 >= o.n) return false;
        for (int k = 1; k < 3; ++k) if (((unsigned char)o.s[i + k] & 0xC0) != 0x80) return false;
        i += 2;
    }
    return true;
}
static void point(char32_t v)
{
    auto opts = options(true);
    opts.tab_width = (unsigned char)vp_choice(3);
    bool uni = opts.is_set(lexy::visualize_use_unicode), sym = opts.is_set(lexy::visualize_use_symbols), col = opts.is_set(lexy::visualize_use_color);
    Out out = show(lexy::code_point(v), opts);
    Out bare; K(out.plain(bare), "an escape character that does not begin a colour");
    if (!col) K(bare.n == out.n, "colour although it is not allowed");
    else { Out p = show(lexy::code_point(v), opts.reset(lexy::visualize_use_color)); K(p == bare, "the text depends on the colour"); }
    K(clean(bare, uni || sym), "something is written that is not printable");
    K(bare.n > 0, "nothing is written");
    unsigned long width = 0; // one column for each character that is written
    for (int i = 0; i < bare.n; ++i) if (!vp_split(((unsigned char)bare.s[i] & 0xC0) == 0x80)) ++width;
    vp::Out dummy; vp::formatting = &dummy;
    K(lexy::visualization_display_width(lexy::code_point(v), opts) == width, "the display width is not the number of columns");
    bool direct = bare.n == 1;
    if (vp_split(v == ' '))
    {
        if (!opts.is_set(lexy::visualize_space)) K(direct && bare.s[0] == ' ', "a space is not written as it is");
        else K(!direct, "a space is written as it is although it has to be visible");
        vp_cover("space");
    }
    else if (vp_split(v == '\\')) { if (uni) K(direct && bare.s[0] == '\\', "a backslash is not written as it is"); else K(bare.n == 2 && bare.s[0] == '\\' && bare.s[1] == '\\', "a backslash is not escaped"); }
    else if (vp_split(v > 0x20 && v < 0x7F)) { K(direct && vp_split((unsigned char)bare.s[0] == v), "a printable character is not written as it is"); vp_cover("printable"); }
    else if (vp_split(v == '\t') && opts.tab_width > 0)
    {
        Out s; for (int i = 0; i < opts.tab_width; ++i) s.append(show(lexy::code_point(U' '), opts));
        K(s == out, "a tab is not as wide as it has to be");
        vp_cover("tab");
    }
    else if (vp_split(v == 0 || v == '\n' || v == '\r' || v == '\t'))
    {
        const char* a = v == 0 ? "\\0" : v == '\n' ? "\\n" : v == '\r' ? "\\r" : "\\t";
        K(!direct, "a control character is written as it is");
        if (!uni && !(sym && (v == '\n' || v == '\t'))) { Out w; w.text(a); K(bare == w, "a control character is written as another one"); }
        vp_cover("named");
    }
    else if (vp_split(v > 0x10FFFF)) { K(!direct && bare.nn == 0, "no code point is written as one"); vp_cover("invalid"); }
    else
    {
        K(!direct, "a code point is written without its value");
        if (bare.nn == 1) K(vp_split(bare.num[0].v == v), "a code point is written with another value");
        Out w;
        if (uni) { w.text8(u8"⟨"); w.text("U+"); } else { w.put('\\'); w.put(v > 0xFFFF ? 'U' : 'u'); }
        int d = uni ? (v > 0xFFFFF ? 6 : v > 0xFFFF ? 5 : 4) : v > 0xFFFF ? 8 : 4;
        w.num[w.nn++] = {w.n, d, v};
        for (int i = 0; i < d; ++i) w.put('0');
        if (uni) w.text8(u8"⟩");
        K(bare == w, "a code point is not written in the form of an escape");
        vp_cover("escaped");
    }
}
WITNESS(point_ascii) { vp_cover_decl("space"); vp_cover_decl("printable"); vp_cover_decl("tab"); vp_cover_decl("named"); vp_cover_decl("escaped"); vp_exact(); point(char32_t(vp_any_range(0, 0x7F))); }
WITNESS(point_rest) { vp_cover_decl("escaped"); vp_cover_decl("invalid"); vp_exact(); point(char32_t(vp_any_range(0x80, 0xFFFFFFFF))); }
// lexemes
static void byte(Out& w, unsigned long v, lexy::visualization_options o, bool prefix = true)
{
    bool uni = o.is_set(lexy::visualize_use_unicode);
    if (uni) { w.text8(u8"⟨"); if (prefix) w.text("0x"); } else { w.put('\\'); if (prefix) w.put('x'); }
    w.num[w.nn++] = {w.n, 2, v};
    w.text("00");
    if (uni) w.text8(u8"⟩");
}
template <typename T>
static Out show_lexeme(const T& l, lexy::visualization_options o) { Out out; vp::formatting = &out; auto it = lexy::visualize_to(OutIt{&out}, l, o); K(it.o == &out, "another output iterator is returned"); return out; }
template <typename Enc>
static void unit(Out& w, const typename Enc::char_type* p, lexy::visualization_options o)
{
    if constexpr (std::is_same_v<Enc, lexy::byte_encoding>) byte(w, *p, o, false);
    else if constexpr (sizeof(*p) == 1) byte(w, (unsigned char)*p, o);
    else
    {
        unsigned long v = *p; bool any = false;
        for (int s = int(sizeof(*p)) * 8 - 8; s >= 0; s -= 8) if (any || s == 0 || vp_split((v >> s) & 0xFF)) { byte(w, (v >> s) & 0xFF, o); any = true; }
    }
}
template <typename Enc>
static void lexeme(int n)
{
    vp_cover_decl("direct"); vp_cover_decl("unit");
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    auto input = vp::tape_input<Enc>(); // ends at a unit with the value of the EOF marker
    auto r = input.reader(); auto b = r.position();
    for (; r.peek() != Enc::eof(); r.bump())
        if constexpr (sizeof(*b) > 2) for (int k = 8; k < 32; k += 8) if (vp_split(*r.position() < 1ul << k)) break;
    lexy::lexeme<decltype(r)> l(b, r.position());
    lexy::visualization_options o; if (vp_choice(2)) o = o | lexy::visualize_use_unicode;
    Out out = show_lexeme(l, o), w;
    for (auto p = b; p != l.end();)
    {
        refcp::Ref c{0, 0};
        if constexpr (std::is_same_v<Enc, lexy::default_encoding>) c = refcp::refascii(p);
        else if constexpr (!std::is_same_v<Enc, lexy::byte_encoding>) c = refcp::refof(Enc{}, p);
        if (c.units) { w.append(show(lexy::code_point(c.cp), o)); vp_cover("direct"); }
        else { unit<Enc>(w, p, o); vp_cover("unit"); }
        p += c.units ? c.units : 1;
    }
    K(out == w, "a lexeme is not the sequence of its characters");
}
WITNESS(lex_ascii) { lexeme<lexy::ascii_encoding>(3); }
WITNESS(lex_default) { lexeme<lexy::default_encoding>(3); }
WITNESS(lex_utf8) { lexeme<lexy::utf8_encoding>(2); }
WITNESS(lex_utf8c) { lexeme<lexy::utf8_char_encoding>(3); }
WITNESS(lex_utf16) { lexeme<lexy::utf16_encoding>(2); }
WITNESS(lex_utf32) { lexeme<lexy::utf32_encoding>(1); }
WITNESS(lex_byte) { vp_cover("direct"); lexeme<lexy::byte_encoding>(3); }
// the limit
template <typename Enc>
static void limit(int n)
{
    vp_cover_decl("cut"); vp_cover_decl("all");
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    vp_tape(sizeof(typename Enc::char_type), -1, 0); // tape_input uses the same one
    vp_tape_domain('a', 'b'); vp_tape_domain_add('\n', '\n'); vp_tape_domain_add('\\', '\\');
    auto input = vp::tape_input<Enc>();
    auto r = input.reader(); auto b = r.position();
    while (r.peek() != Enc::eof()) r.bump();
    lexy::lexeme<decltype(r)> l(b, r.position());
    lexy::visualization_options o; if (vp_choice(2)) o = o | lexy::visualize_use_unicode;
    o.max_lexeme_width = (unsigned char)(1 + vp_choice(3));
    Out out = show_lexeme(l, o), w; int k = 0; auto p = b;
    for (; p != l.end() && k < o.max_lexeme_width; ++p, ++k)
        if constexpr (std::is_same_v<Enc, lexy::byte_encoding>) unit<Enc>(w, p, o); else w.append(show(lexy::code_point(char32_t(*p)), o));
    Out e = w; if (o.is_set(lexy::visualize_use_unicode)) e.text8(u8"…"); else e.text("...");
    if (p != l.end()) { K(out == e, "a lexeme is not cut at the limit"); vp_cover("cut"); }
    else { K(out == w || (k == o.max_lexeme_width && out == e), "a lexeme within the limit is not written as it is"); vp_cover("all"); }
}
WITNESS(limit_ascii) { limit<lexy::ascii_encoding>(5); }
WITNESS(limit_utf8) { limit<lexy::utf8_char_encoding>(5); }
WITNESS(limit_utf16) { limit<lexy::utf16_encoding>(5); }
WITNESS(limit_byte) { limit<lexy::byte_encoding>(5); }
