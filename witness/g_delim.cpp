// Delimited text, escapes, captures, until, in several encodings.
#include "gen.hpp"
#define A LEXY_LIT("a")
#define Q LEXY_LIT("\"")
constexpr auto esctab = lexy::symbol_table<char>.map<'n'>('\n').map<'"'>('"');
constexpr auto esc = dsl::backslash_escape.symbol<esctab>();
constexpr auto esc2 = dsl::dollar_escape.rule(dsl::lit_c<'u'> >> dsl::code_point_id<2>).capture(dsl::ascii::alpha);
G(q, dsl::quoted(dsl::code_point));                                     W(q, utf8) W(q, utf16) W(q, utf32) W(q, ascii)
G(q_cc, dsl::quoted(dsl::ascii::print));                                WK(q_cc, 2) W(q_cc, utf8_char)
G(q_esc, dsl::quoted(-dsl::ascii::control, esc));                       W(q_esc, utf8) W(q_esc, ascii)
G(q_esc2, dsl::single_quoted(-dsl::ascii::control, esc2, esc));         W(q_esc2, utf8)
G(q_lim, dsl::quoted.limit(dsl::ascii::newline)(dsl::ascii::print, esc)); WK(q_lim, 2) W(q_lim, utf8_char)
G(q_lim_err, dsl::single_quoted.limit<tag>(dsl::ascii::newline)(dsl::ascii::alpha)); WK(q_lim_err, 2)
G(q_tri, dsl::triple_quoted(dsl::code_point));                          WITNESS(q_tri) { vp_retain(3); vp::check<p_q_tri, lexy::utf8_char_encoding>(); }
G(d_comm, dsl::delimited(LEXY_LIT("/*"), LEXY_LIT("*/"))(dsl::ascii::character)); WK(d_comm, 2)
G(d_angle, dsl::delimited(dsl::lit_c<'<'>, dsl::lit_c<'>'>)(dsl::code_point - dsl::lit_c<'!'>)); W(d_angle, utf8)
G(d_br, dsl::quoted(dsl::ascii::alpha) | dsl::backticked(dsl::ascii::alpha) | A); WK(d_br, 2)
G(cap, dsl::capture(dsl::ascii::alpha / dsl::digit<>) + dsl::capture(A)); WK(cap, 2)
G(cap_tok, dsl::capture(dsl::token(dsl::while_one(dsl::ascii::alpha))) + dsl::digit<>); WK(cap_tok, 2)
struct tokp : lexy::token_production { static constexpr auto rule = dsl::while_(A) + dsl::digits<>; };
G(cap_p, dsl::capture(dsl::p<tokp>) + A);                               WK(cap_p, 2)
G(cpid, dsl::code_point_id<4>);                                         WK(cpid, 2) W(cpid, utf8_char)
G(cpid_var, dsl::hash_sign + dsl::code_point_id<2> + dsl::hash_sign);   WK(cpid_var, 2)
G(int_dec, dsl::integer<unsigned char>);                                WK(int_dec, 2)
G(int_dig, dsl::integer<signed char>(dsl::digits<>.no_leading_zero())); WK(int_dig, 2)
G(int_hex, dsl::integer<unsigned char>(dsl::digits<dsl::hex>.sep(dsl::digit_sep_tick))); WK(int_hex, 2)
G(int_n, dsl::integer<unsigned short>(dsl::n_digits<3>));               WK(int_n, 2)
G(int_br2, dsl::integer<unsigned char> >> A | A);                       WK(int_br2, 2)
G(int_bounded, dsl::integer<lexy::bounded<int, 300>>);                  WK(int_bounded, 2)
G(until_cap, dsl::capture(dsl::until(dsl::semicolon)));                 WK(until_cap, 2)
G(q_swar, dsl::quoted(dsl::ascii::print));                              WSL(q_swar, utf8_char, 10)
G(q_lim_swar, dsl::quoted.limit(dsl::ascii::newline)(dsl::ascii::print, esc)); WSL(q_lim_swar, utf8_char, 10)
G(q_byte, dsl::quoted(dsl::ascii::print / dsl::lit_b<0x82>));              WK(q_byte, 2)
G(q_byte_esc, dsl::quoted(dsl::ascii::print - dsl::lit_b<0x20> / dsl::lit_b<0x82>, esc)); W(q_byte_esc, byte)
