// Token rules, every encoding, over every input: bounds, progress, events, errors.
#include "mon.hpp"
namespace dsl = lexy::dsl;
#define G(name, ...) struct p_##name { static constexpr auto rule = __VA_ARGS__; }
#define W(name, enc) WITNESS(name##__##enc) { vp::check<p_##name, lexy::enc##_encoding>(); }
#define W0(name, enc) WITNESS(name##__##enc) { vp::check<p_##name, lexy::enc##_encoding>("success", nullptr); }
#define WS(name, enc) WITNESS(name##__##enc##_swar) { vp::check_swar<p_##name, lexy::enc##_encoding>(); }
#define WS0(name, enc) WITNESS(name##__##enc##_swar) { vp::check_swar<p_##name, lexy::enc##_encoding>("success", nullptr); }

G(lit, LEXY_LIT("ab"));
W(lit, default) W(lit, utf16) W(lit, utf32) WS(lit, utf8_char) WS(lit, utf32) WS(lit, ascii)
G(lit_long, LEXY_LIT("abcdefghijk"));
W(lit_long, utf8) WS(lit_long, utf8) WS(lit_long, ascii)
G(lit_empty, LEXY_LIT(""));
W0(lit_empty, default)
G(lit_c, dsl::lit_c<'x'>);
W(lit_c, ascii)
G(lit_b, dsl::lit_b<1, 255>);
W(lit_b, byte)
G(lit_cp, dsl::lit_cp<0x41, 0xE4, 0x20AC, 0x1F642>);
W(lit_cp, utf8) W(lit_cp, utf16) W(lit_cp, utf32) WS(lit_cp, utf8)
G(lit_set, dsl::literal_set(LEXY_LIT("a"), LEXY_LIT("abc"), LEXY_LIT("abd"), LEXY_LIT("x"), LEXY_LIT("xyz")));
W(lit_set, utf8_char) W(lit_set, utf16) WS(lit_set, utf8_char)
G(fold, dsl::ascii::case_folding(LEXY_LIT("a-z")));
W(fold, default) W(fold, utf8) WS(fold, utf8_char)
G(fold_set, dsl::literal_set(dsl::ascii::case_folding(LEXY_LIT("ab")), LEXY_LIT("abc")));
W(fold_set, default)
G(alpha, dsl::ascii::alpha);
W(alpha, default) W(alpha, utf16) WS(alpha, utf8_char)
G(ascii_char, dsl::ascii::character);
W(ascii_char, utf8) W(ascii_char, byte)
G(cc_union, dsl::ascii::alpha / dsl::lit_c<'_'> / dsl::ascii::digit);
W(cc_union, default) W(cc_union, utf32)
G(cc_compl, -dsl::ascii::control);
W(cc_compl, utf8) W(cc_compl, utf16) W(cc_compl, utf32) W(cc_compl, ascii)
G(cc_minus, dsl::ascii::alpha - dsl::lit_c<'q'>);
W(cc_minus, default)
G(cc_minus_cp, dsl::code_point - dsl::ascii::digit - dsl::lit_cp<0x20AC>);
W(cc_minus_cp, utf8) W(cc_minus_cp, utf16)
G(cc_and, dsl::ascii::alnum & dsl::digit<dsl::hex>);
W(cc_and, default)
G(cc_lit, LEXY_CHAR_CLASS("op", LEXY_ASCII_ONE_OF("+-*/") / dsl::lit_c<'x'>));
W(cc_lit, default)
G(uni_alpha, dsl::unicode::alpha);
W(uni_alpha, utf32)
G(code_point, dsl::code_point);
W(code_point, utf8) W(code_point, utf16) W(code_point, utf32) W(code_point, ascii) WS(code_point, utf8) WS(code_point, utf32)
struct is_odd { LEXY_CONSTEVAL static auto name() { return "odd"; } constexpr bool operator()(lexy::code_point cp) const { return cp.value() & 1; } };
G(code_point_if, dsl::code_point.if_<is_odd>());
W(code_point_if, utf8)
G(code_point_range, dsl::code_point.range<'a', 0x3B1>());
W(code_point_range, utf8) W(code_point_range, utf16)
G(code_point_set, dsl::code_point.set<'a', 'b', 0x20AC>());
W(code_point_set, utf8)
G(digit, dsl::digit<>);
W(digit, default)
G(zero, dsl::zero);
W(zero, default)
G(digits, dsl::digits<>);
W(digits, default) W(digits, utf16) WS(digits, utf8_char) WS(digits, ascii)
G(digits_hex, dsl::digits<dsl::hex>);
W(digits_hex, default) WS(digits_hex, utf8)
G(digits_bin, dsl::digits<dsl::binary>);
W(digits_bin, default) WS(digits_bin, utf8)
G(digits_sep, dsl::digits<dsl::octal>.sep(dsl::digit_sep_underscore));
W(digits_sep, default) WS(digits_sep, utf8)
G(digits_nlz, dsl::digits<>.no_leading_zero());
W(digits_nlz, default) WITNESS(digits_nlz__swar) { vp_maxlen(12); vp::check_swar<p_digits_nlz>(); }
G(digits_sep_nlz, dsl::digits<>.sep(dsl::digit_sep_tick).no_leading_zero());
W(digits_sep_nlz, default) WS(digits_sep_nlz, utf8_char)
G(n_digits, dsl::n_digits<3>);
W(n_digits, default)
G(n_digits_sep, dsl::n_digits<3, dsl::hex>.sep(dsl::digit_sep_tick));
W(n_digits_sep, default)
G(ident, dsl::identifier(dsl::ascii::alpha, dsl::ascii::alpha_digit_underscore));
W(ident, default) WS(ident, utf8_char)
G(ident_pat, dsl::identifier(dsl::ascii::alpha_underscore).pattern());
W(ident_pat, default)
#define ID dsl::identifier(dsl::ascii::alpha)
G(ident_res, ID.reserve(LEXY_LIT("if"), LEXY_LIT("in")));
WITNESS(ident_res__default) { vp_retain(4); vp::check<p_ident_res, lexy::default_encoding>(); }
G(ident_pre, ID.reserve_prefix(LEXY_LIT("_a"), LEXY_LIT("b")));
WITNESS(ident_pre__default) { vp_retain(4); vp::check<p_ident_pre, lexy::default_encoding>(); }
G(ident_con, ID.reserve_containing(LEXY_LIT("ab")));
WITNESS(ident_con__default) { vp_maxlen(5); vp_retain(6); vp::check<p_ident_con, lexy::default_encoding>(); }
G(ident_suf, ID.reserve_suffix(LEXY_LIT("ab")));
WITNESS(ident_suf__default) { vp_maxlen(5); vp_retain(6); vp::check<p_ident_suf, lexy::default_encoding>(); }
G(keyword, LEXY_KEYWORD("int", ID));
W(keyword, default) W(keyword, utf8) WS(keyword, utf8_char)
G(kw_set, dsl::literal_set(LEXY_KEYWORD("in", ID), LEXY_KEYWORD("int", ID), LEXY_LIT("i+")));
W(kw_set, default)
G(until, dsl::until(LEXY_LIT("*/")));
W(until, default) WS(until, utf8_char) W(until, utf16)
G(until_eof, dsl::until(dsl::newline).or_eof());
W0(until_eof, default) WS0(until_eof, utf8_char)
G(newline, dsl::newline);
W(newline, default) W(newline, utf16) WS(newline, utf8)
G(eol, dsl::eol);
W(eol, default) WS(eol, utf8)
G(eof, dsl::eof);
W0(eof, default) WS0(eof, utf8)
G(any, dsl::any);
W0(any, default) WS0(any, utf8)
G(bom8, dsl::bom<lexy::utf8_encoding, lexy::encoding_endianness::little>);
W(bom8, byte)
G(bom16, dsl::bom<lexy::utf16_encoding, lexy::encoding_endianness::big>);
W(bom16, byte)
G(bytes, dsl::bytes<3>);
W(bytes, byte)
G(padding, dsl::padding_bytes<3, 7>);
W0(padding, byte)
G(lint32, dsl::little_bint32);
W(lint32, byte)
G(bits, dsl::bits(dsl::bit::_0, dsl::bit::any<3>, dsl::bit::_1, dsl::bit::_, dsl::bit::_0, dsl::bit::_1));
W(bits, byte)
G(tok, dsl::token(LEXY_LIT("a") + dsl::while_(LEXY_LIT("b")) + dsl::opt(LEXY_LIT("c"))));
W(tok, default)
constexpr auto table = lexy::symbol_table<int>.map<LEXY_SYMBOL("a")>(1).map<LEXY_SYMBOL("ab")>(2).map<LEXY_SYMBOL("b")>(3);
G(sym, dsl::symbol<table>);
W(sym, default) WS(sym, utf8_char)
G(sym_id, dsl::symbol<table>(ID));
W(sym_id, default)
G(sym_tok, dsl::symbol<table>(dsl::token(dsl::while_one(dsl::ascii::alpha))));
WITNESS(sym_tok__default) { vp_retain(4); vp::check<p_sym_tok, lexy::default_encoding>(); }
struct p_capt { static constexpr auto rule = dsl::capture(dsl::token(dsl::ascii::alpha + dsl::digits<>)); };
W(capt, default)
G(plus_sign, dsl::plus_sign + dsl::digits<>);
W(plus_sign, default)
G(sign, dsl::sign + dsl::digits<>);
W(sign, default)
G(lit3_u32, LEXY_LIT("abc") | LEXY_LIT("a"));                              WS(lit3_u32, utf32)
G(lit5_u8, LEXY_LIT("abcdefghij") | LEXY_LIT("ab"));                       WS(lit5_u8, utf8)
