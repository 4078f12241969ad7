// Literals, character classes and their combinations against references.
#define ACC_CODE "C11"
#include "acc.hpp"
#include "refcp.hpp"
using namespace ref;
// one code point satisfying f, decoded by the reference
template <typename Enc, typename C, typename F>
static bool cp1(Cur<C>& c, F f)
{
    auto r = refcp::refof(Enc{}, c.p);
    if (!r.units || !vp_split(f(r.cp))) return false;
    c.p += r.units;
    return true;
}
// a class: one character in five encodings, and repeated over SWAR words
#define CLS(name, rule_, f) \
    struct p_##name { static constexpr auto rule = rule_; }; \
    struct p_##name##_rep { static constexpr auto rule = dsl::while_(rule_); }; \
    WITNESS(name##_def) { vp::accept<p_##name, lexy::default_encoding>(2, [](auto& c) -> bool { return c.eat(f); }); } \
    WITNESS(name##_utf8) { vp::accept<p_##name, lexy::utf8_char_encoding>(2, [](auto& c) -> bool { return c.eat(f); }); } \
    WITNESS(name##_utf8u) { vp::accept<p_##name, lexy::utf8_encoding>(2, [](auto& c) -> bool { return c.eat(f); }); } \
    WITNESS(name##_utf16) { vp::accept<p_##name, lexy::utf16_encoding>(2, [](auto& c) -> bool { return c.eat(f); }); } \
    WITNESS(name##_utf32) { vp::accept<p_##name, lexy::utf32_encoding>(2, [](auto& c) -> bool { return c.eat(f); }); } \
    WITNESS(name##_swar) { vp::accept_swar<p_##name##_rep, lexy::utf8_char_encoding, true>(9, [](auto& c) -> bool { while (c.eat(f)) {} return true; }); }
static bool f_control(unsigned c) { return c < 0x20 || c == 0x7F; }
static bool f_newline(unsigned c) { return c == '\n' || c == '\r'; }
static bool f_other(unsigned c) { return c == '\f' || c == '\v'; }
static bool f_space(unsigned c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool f_lower(unsigned c) { return c >= 'a' && c <= 'z'; }
static bool f_upper(unsigned c) { return c >= 'A' && c <= 'Z'; }
static bool f_alphau(unsigned c) { return alpha(c) || c == '_'; }
static bool f_graph(unsigned c) { return c >= 0x21 && c <= 0x7E; }
static bool f_punct(unsigned c) { return f_graph(c) && !alnum(c); }
static bool f_char(unsigned c) { return c <= 0x7F; }
static bool f_one(unsigned c) { return c == 'a' || c == 'Z' || c == '0' || c == '-'; }
CLS(control, dsl::ascii::control, f_control)
CLS(blank, dsl::ascii::blank, blank)
CLS(newline, dsl::ascii::newline, f_newline)
CLS(other_space, dsl::ascii::other_space, f_other)
CLS(space, dsl::ascii::space, f_space)
CLS(digit, dsl::ascii::digit, digit)
CLS(lower, dsl::ascii::lower, f_lower)
CLS(upper, dsl::ascii::upper, f_upper)
CLS(alpha, dsl::ascii::alpha, alpha)
CLS(alphau, dsl::ascii::alpha_underscore, f_alphau)
CLS(alnum, dsl::ascii::alpha_digit, alnum)
CLS(word, dsl::ascii::word, word)
CLS(punct, dsl::ascii::punct, f_punct)
CLS(graph, dsl::ascii::graph, f_graph)
CLS(print, dsl::ascii::print, print)
CLS(character, dsl::ascii::character, f_char)
CLS(one_of, LEXY_ASCII_ONE_OF("aZ0-"), f_one)
// combinations of ASCII classes
static bool f_u(unsigned c) { return f_lower(c) || digit(c) || c == '_'; }
static bool f_m(unsigned c) { return alnum(c) && c != 'x' && c != '5'; }
static bool f_i(unsigned c) { return f_graph(c) && !alnum(c) && c != '!'; }
CLS(uni, dsl::ascii::lower / dsl::digit<> / dsl::lit_c<'_'>, f_u)
CLS(minus, dsl::ascii::alnum - dsl::lit_c<'x'> - dsl::lit_c<'5'>, f_m)
CLS(inter, dsl::ascii::graph & dsl::ascii::punct - dsl::lit_c<'!'>, f_i)
static bool f_mac(unsigned c) { return alpha(c) || c == '$'; }
CLS(macro, (LEXY_CHAR_CLASS("name", dsl::ascii::alpha / dsl::lit_c<'$'>)), f_mac)
static bool f_mac2(unsigned c) { return c == 'a' || c == '$'; }
CLS(macro2, ((dsl::ascii::alpha / dsl::lit_c<'$'>) - (dsl::ascii::alpha - dsl::lit_c<'a'>)), f_mac2)
// classes over code points: in every Unicode encoding
#define CPC(name, rule_, ...) \
    struct p_##name { static constexpr auto rule = rule_; }; \
    struct f_##name { bool operator()(uint32_t c) const { return __VA_ARGS__; } }; \
    WITNESS(name##_u8) { vp::accept<p_##name, lexy::utf8_encoding>(5, [](auto& c) -> bool { return cp1<lexy::utf8_encoding>(c, f_##name{}); }); } \
    WITNESS(name##_u8c) { vp::accept<p_##name, lexy::utf8_char_encoding>(5, [](auto& c) -> bool { return cp1<lexy::utf8_char_encoding>(c, f_##name{}); }); } \
    WITNESS(name##_u16) { vp::accept<p_##name, lexy::utf16_encoding>(3, [](auto& c) -> bool { return cp1<lexy::utf16_encoding>(c, f_##name{}); }); } \
    WITNESS(name##_u32) { vp::accept<p_##name, lexy::utf32_encoding>(2, [](auto& c) -> bool { return cp1<lexy::utf32_encoding>(c, f_##name{}); }); }
#define CPCA(name, rule_, ...) CPC(name, rule_, __VA_ARGS__) WITNESS(name##_asc) { vp::accept<p_##name, lexy::ascii_encoding>(2, [](auto& c) -> bool { return cp1<lexy::ascii_encoding>(c, f_##name{}); }); }
CPC(cp, dsl::code_point, true)
CPCA(cp_compl, -dsl::ascii::control, !(c < 0x20 || c == 0x7F))
CPCA(cp_compl2, -dsl::digit<>, !(c >= '0' && c <= '9'))
CPC(cp_minus, dsl::code_point - dsl::ascii::control, !(c < 0x20 || c == 0x7F))
CPC(cp_minus2, dsl::code_point - dsl::ascii::alpha - dsl::lit_c<'_'>, !(c < 0x80 && alpha(c)) && c != '_')
CPC(cp_minus3, dsl::code_point - dsl::lit_cp<0xE9>, c != 0xE9)
CPC(cp_minus4, dsl::code_point - dsl::lit_cp<0x1F600> - dsl::ascii::digit, c != 0x1F600 && !digit(c))
CPC(cp_compl3, -dsl::lit_cp<0x20AC>, c != 0x20AC)
CPC(cp_compl4, -(dsl::lit_cp<0x20AC> / dsl::ascii::alpha), c != 0x20AC && !(c < 0x80 && alpha(c)))
CPC(cp_dcompl, -(-(dsl::lit_cp<0x20AC> / dsl::ascii::alpha)), c == 0x20AC || (c < 0x80 && alpha(c)))
CPC(cp_and, (-dsl::lit_cp<0x20AC>) & (dsl::code_point - dsl::ascii::digit), c != 0x20AC && !digit(c))
CPC(cp_uni, dsl::ascii::alpha / dsl::lit_cp<0xE9> / dsl::lit_cp<0x1F600>, (c < 0x80 && alpha(c)) || c == 0xE9 || c == 0x1F600)
CPC(cp_ascii, dsl::code_point.ascii(), c <= 0x7F)
CPC(cp_bmp, dsl::code_point.bmp(), c <= 0xFFFF)
CPC(cp_nonch, dsl::code_point.noncharacter(), (c >= 0xFDD0 && c <= 0xFDEF) || (c & 0xFFFE) == 0xFFFE)
CPC(cp_range, (dsl::code_point.range<0x7A, 0x20AC>()), c >= 0x7A && c <= 0x20AC)
CPC(cp_set, (dsl::code_point.set<0x61, 0xE9, 0x10FFFF>()), c == 0x61 || c == 0xE9 || c == 0x10FFFF)
struct pred_ { static constexpr auto name = "pred"; constexpr bool operator()(lexy::code_point cp) const { return cp.value() > 0x1234 && cp.value() != 0x20000; } };
CPC(cp_if, dsl::code_point.if_<pred_>(), c > 0x1234 && c != 0x20000)
CPC(litcp1, dsl::lit_cp<0xE9>, c == 0xE9)
CPC(litcp2, dsl::lit_cp<0x20AC>, c == 0x20AC)
CPC(litcp3, dsl::lit_cp<0x10FFFF>, c == 0x10FFFF)
CPC(litcp4, dsl::lit_cp<0x7F>, c == 0x7F)
CPC(litcp5, dsl::lit_cp<0x80>, c == 0x80)
CPC(litcp6, dsl::lit_cp<0x7FF>, c == 0x7FF)
CPC(litcp7, dsl::lit_cp<0x800>, c == 0x800)
CPC(litcp8, dsl::lit_cp<0xFFFF>, c == 0xFFFF)
CPC(litcp9, dsl::lit_cp<0x10000>, c == 0x10000)
// byte classes in encodings without code points
static bool f_by(unsigned c) { return alpha(c) || c == 0x82 || c == 0xFF; }
ACC(byte_uni, 2, (dsl::ascii::alpha / dsl::lit_b<0x82> / dsl::lit_b<0xFF>), return c.eat(f_by);)
ACCE(byte_uni_b, byte, 2, (dsl::ascii::alpha / dsl::lit_b<0x82> / dsl::lit_b<0xFF>), return c.eat(f_by);)
static bool f_by2(unsigned c) { return c != 0x82 && c != 'x'; }
ACC(byte_compl, 2, -(dsl::lit_b<0x82> / dsl::lit_c<'x'>), return c.eat(f_by2);)
ACCE(byte_compl_b, byte, 2, -(dsl::lit_b<0x82> / dsl::lit_c<'x'>), return c.eat(f_by2);)
// literals
#define LIT(name, enc, n, rule_, ...) ACCE(name, enc, n, rule_, __VA_ARGS__) ACCS(name##_swar, enc, n, rule_, __VA_ARGS__)
ACC(lit1, 2, dsl::lit_c<'a'>, return c.eat('a');)
ACC(lit3, 4, LEXY_LIT("abc"), return c.lit("abc");)
ACC(lit9, 10, LEXY_LIT("abcdefghi"), return c.lit("abcdefghi");)
LIT(litu1, utf8_char, 2, LEXY_LIT("a"), return c.lit("a");)
LIT(litu2, utf8_char, 3, LEXY_LIT("ab"), return c.lit("ab");)
LIT(litu3, utf8, 4, LEXY_LIT("abc"), return c.lit("abc");)
LIT(litu7, utf8_char, 8, LEXY_LIT("abcdefg"), return c.lit("abcdefg");)
LIT(litu8, utf8_char, 9, LEXY_LIT("abcdefgh"), return c.lit("abcdefgh");)
LIT(litu9, utf8_char, 10, LEXY_LIT("abcdefghi"), return c.lit("abcdefghi");)
LIT(litu17, utf8_char, 18, LEXY_LIT("abcdefghijklmnopq"), return c.lit("abcdefghijklmnopq");)
ACCE(litw1, utf16, 2, LEXY_LIT("a"), return c.lit("a");)
ACCE(litw5, utf16, 6, LEXY_LIT("abcde"), return c.lit("abcde");)
LIT(litd3, utf32, 4, LEXY_LIT("abc"), return c.lit("abc");)
ACCE(litb, byte, 4, (dsl::lit_b<0x00, 0xFF, 0x80>), return c.eat(0u) && c.eat(0xFF) && c.eat(0x80);)
LIT(lita, ascii, 4, LEXY_LIT("abc"), return c.lit("abc");)
LIT(litcps, utf8, 7, (dsl::lit_cp<0x61, 0xE9, 0x20AC>), return c.lit("a") && c.eat(0xC3) && c.eat(0xA9) && c.eat(0xE2) && c.eat(0x82) && c.eat(0xAC);)
ACCE(litcps16, utf16, 4, (dsl::lit_cp<0x61, 0x1F600>), return c.eat('a') && c.eat(0xD83D) && c.eat(0xDE00);)
ACC(litseq, 5, LEXY_LIT("ab") + LEXY_LIT("cd"), return c.lit("abcd");)
// literal sets: the longest listed literal
ACC(lset, 5, dsl::literal_set(LEXY_LIT("a"), LEXY_LIT("abc"), LEXY_LIT("bd"), LEXY_LIT("b")), return c.lit("abc") || c.lit("a") || c.lit("bd") || c.lit("b");)
ACC(lset2, 6, dsl::literal_set(LEXY_LIT("ab"), LEXY_LIT("abcde"), LEXY_LIT("abcx")), return c.lit("abcde") || c.lit("abcx") || c.lit("ab");)
ACC(lset3, 4, dsl::literal_set(LEXY_LIT("int"), LEXY_LIT("in"), LEXY_LIT("i")), return c.lit("int") || c.lit("in") || c.lit("i");)
ACCE(lsetu, utf8, 5, (dsl::literal_set(dsl::lit_cp<0xE9>, dsl::lit_cp<0xEA, 0x61>, LEXY_LIT("a"))), auto q = c; if (q.eat(0xC3)) { if (q.eat(0xA9)) { c = q; return true; } if (q.eat(0xAA) && q.eat('a')) { c = q; return true; } return false; } return c.eat('a');)
ACC(lset_br, 4, dsl::literal_set(LEXY_LIT("ab"), LEXY_LIT("c")) | LEXY_LIT("a"), return c.lit("ab") || c.lit("c") || c.lit("a");)
constexpr auto idk = dsl::identifier(dsl::ascii::lower);
ACC(lset_kw, 5, dsl::literal_set(LEXY_KEYWORD("if", idk), LEXY_KEYWORD("ifdef", idk), LEXY_LIT("i")), auto q = c; if (q.lit("ifdef") && !q.in('a', 'z')) { c = q; return true; } q = c; if (q.lit("if") && !q.in('a', 'z')) { c = q; return true; } return c.eat('i');)
ACCE(lset_nf, ascii, 4, dsl::literal_set(dsl::not_followed_by(LEXY_LIT("="), dsl::lit_c<'='>), LEXY_LIT("==="), LEXY_LIT("+")), if (c.lit("===")) return true; auto q = c; if (q.eat('=') && !q.is('=')) { c = q; return true; } return c.eat('+');)
// ASCII case folding
static bool ci(Ch& c, const char* s) { auto q = c; for (; *s; ++s) if (!q.eat((unsigned char)*s) && !q.eat((unsigned char)(*s - 32))) return false; c = q; return true; }
ACC(fold, 4, dsl::ascii::case_folding(LEXY_LIT("abz")), return ci(c, "abz");)
ACC(fold2, 4, dsl::ascii::case_folding(LEXY_LIT("a@[")), auto q = c; if ((q.eat('a') || q.eat('A')) && q.lit("@[")) { c = q; return true; } return false;)
ACC(foldset, 4, dsl::literal_set(dsl::ascii::case_folding(LEXY_LIT("ab")), dsl::ascii::case_folding(LEXY_LIT("a")), dsl::ascii::case_folding(LEXY_LIT("abcd"))), return ci(c, "abcd") || ci(c, "ab") || ci(c, "a");)
ACCE(foldw, utf16, 3, dsl::ascii::case_folding(LEXY_LIT("az")), return (c.eat('a') || c.eat('A')) && (c.eat('z') || c.eat('Z'));)
ACCE(foldkw, ascii, 4, dsl::ascii::case_folding(LEXY_KEYWORD("if", idk)), if (!(c.eat('i') || c.eat('I'))) return false; if (!(c.eat('f') || c.eat('F'))) return false; return !c.in('a', 'z') && !c.in('A', 'Z');)
// symbol tables: the value of the longest symbol
constexpr auto tab = lexy::symbol_table<int>.map<LEXY_SYMBOL("a")>(1).map<LEXY_SYMBOL("abc")>(2).map<LEXY_SYMBOL("b")>(3).map<LEXY_SYMBOL("bd")>(4).map<'x'>(5);
constexpr auto tabf = lexy::symbol_table<int>.case_folding(dsl::ascii::case_folding).map<LEXY_SYMBOL("ab")>(1).map<LEXY_SYMBOL("a")>(2).map<LEXY_SYMBOL("abcd")>(3);
struct V { static constexpr auto value = lexy::forward<int>; };
struct p_sym : V { static constexpr auto rule = dsl::symbol<tab>; };
struct p_symt : V { static constexpr auto rule = dsl::symbol<tab>(dsl::token(dsl::while_one(dsl::ascii::lower))); };
struct p_symi : V { static constexpr auto rule = dsl::symbol<tab>(dsl::identifier(dsl::ascii::lower, dsl::ascii::lower / dsl::digit<>)); };
struct p_symf : V { static constexpr auto rule = dsl::symbol<tabf>; };
struct p_symbr : V { static constexpr auto rule = dsl::symbol<tab> | LEXY_LIT("z") >> dsl::symbol<tabf>; };
struct p_symtbr : V { static constexpr auto rule = dsl::symbol<tab>(dsl::token(dsl::while_one(dsl::ascii::lower))) | LEXY_LIT("z") >> dsl::symbol<tabf>; };
struct p_symibr : V { static constexpr auto rule = dsl::symbol<tab>(idk) | LEXY_LIT("z") >> dsl::symbol<tabf>; };
static int bare(Ch& c) { if (c.lit("abc")) return 2; if (c.eat('a')) return 1; if (c.lit("bd")) return 4; if (c.eat('b')) return 3; if (c.eat('x')) return 5; return 0; }
static int foldv(Ch& c) { if (ci(c, "abcd")) return 3; if (ci(c, "ab")) return 1; if (ci(c, "a")) return 2; return 0; }
template <typename F>
static int whole(Ch& c, F f) // the whole token must be a symbol
{
    auto e = c;
    if (!f(e)) return 0;
    auto q = c;
    int  v = bare(q);
    if (!v || q.p != e.p) return 0;
    c = e;
    return v;
}
static bool lows(Ch& c) { if (!c.eat(f_lower)) return false; while (c.eat(f_lower)) {} return true; }
static bool lowd(unsigned c) { return f_lower(c) || digit(c); }
static bool ids(Ch& c) { if (!c.eat(f_lower)) return false; while (c.eat(lowd)) {} return true; }
template <typename Prod, typename F>
static void symbols(int n, F f)
{
    vp_cover_decl("match"); vp_cover_decl("no match");
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    auto input = vp::tape_input<lexy::default_encoding>();
    auto reader = input.reader();
    Ch   q{reader.position()};
    int  want = f(q);
    vp::Seen seen;
    auto r = vp::parse<Prod>(reader, seen);
    VP_CHECK("C11", r.ok || !want, "a symbol of the table is rejected");
    VP_CHECK("C11", !r.ok || want, "something that is no symbol is accepted");
    if (want) { vp_cover("match"); VP_CHECK("C11", r.value == want, "another symbol's value"); VP_CHECK("C11", vp::P(reader.position()) == vp::P(q.p), "stops at another position"); }
    else vp_cover("no match");
}
WITNESS(sym) { symbols<p_sym>(5, bare); }
WITNESS(symt) { symbols<p_symt>(5, [](Ch& c) { return whole(c, lows); }); }
WITNESS(symi) { symbols<p_symi>(5, [](Ch& c) { return whole(c, ids); }); }
WITNESS(symf) { symbols<p_symf>(5, foldv); }
WITNESS(symbr) { symbols<p_symbr>(5, [](Ch& c) { if (int v = bare(c)) return v; if (!c.eat('z')) return 0; return foldv(c); }); }
WITNESS(symtbr) { symbols<p_symtbr>(5, [](Ch& c) { if (int v = whole(c, lows)) return v; if (!c.eat('z')) return 0; return foldv(c); }); }
struct p_symidbr : V { static constexpr auto rule = dsl::symbol<tab>(dsl::identifier(dsl::ascii::lower, dsl::ascii::lower / dsl::digit<>)) | LEXY_LIT("9") >> dsl::symbol<tabf>; };
WITNESS(symidbr) { symbols<p_symidbr>(5, [](Ch& c) { if (int v = whole(c, ids)) return v; if (!c.eat('9')) return 0; return foldv(c); }); }
WITNESS(symibr) { symbols<p_symibr>(5, [](Ch& c) { if (int v = whole(c, lows)) return v; if (!c.eat('z')) return 0; return foldv(c); }); }
