// Automatic whitespace, token productions, no_whitespace.
#include "gen.hpp"
#define A LEXY_LIT("a")
#define B LEXY_LIT("b")
#define C LEXY_LIT("c")
constexpr auto comment = dsl::hash_sign >> dsl::until(dsl::newline).or_eof();
#define GC(name, ...) struct p_##name { static constexpr auto whitespace = dsl::ascii::space | comment; static constexpr auto rule = __VA_ARGS__; }
struct item { static constexpr auto rule = A >> B; };
struct itok : lexy::token_production { static constexpr auto rule = A >> B; };
struct itok2 : lexy::token_production { static constexpr auto rule = A + dsl::p<item> + B; };
struct iws { static constexpr auto whitespace = dsl::lit_c<'_'>; static constexpr auto rule = A + B; };
GW(w_seq, A + B + dsl::digits<>);                                 WK(w_seq, 2)
GW(w_ch, A >> B | dsl::digits<> >> C);                            WK(w_ch, 2)
GC(c_seq, A + B);                                                 WK(c_seq, 2)
GC(c_list, dsl::list(A >> B, dsl::sep(dsl::comma)) + C);          WK(c_list, 2)
GC(c_term, dsl::terminator(dsl::semicolon).list(dsl::p<item>, dsl::sep(dsl::comma))); WK(c_term, 2)
GW(w_tok, dsl::p<itok> + C);                                      WK(w_tok, 2)
GW(w_tok2, dsl::p<itok2> + C);                                    WK(w_tok2, 2)
GW(w_prod, dsl::p<item> + dsl::p<item>);                          WK(w_prod, 2)
GW(w_own, A + dsl::p<iws> + C);                                   WK(w_own, 2)
GW(w_none, A + dsl::no_whitespace(B + C) + A);                    WK(w_none, 2)
GW(w_none_br, dsl::no_whitespace(A >> B) | B >> C);               WK(w_none_br, 2)
GW(w_none_try, A + dsl::try_(dsl::no_whitespace(B + C)) + A);     WK(w_none_try, 2)
GW(w_opt, dsl::opt(A >> B) + C);                                  WK(w_opt, 2)
GW(w_while, dsl::while_(A >> B) + C);                             WK(w_while, 2)
GW(w_ident, dsl::identifier(dsl::ascii::alpha) + B);              WK(w_ident, 2)
GW(w_quoted, dsl::quoted(dsl::ascii::alpha) + B);                 WK(w_quoted, 2)
GW(w_int, dsl::integer<unsigned char>(dsl::n_digits<2>) + B);     WK(w_int, 2)
GW(w_cap, dsl::capture(A) + dsl::capture(dsl::p<itok>) + B);      WK(w_cap, 2)
GW(w_sym, dsl::peek(A) >> A + B | dsl::else_ >> C);               WK(w_sym, 2)
GW(w_try, dsl::try_(A + B, dsl::find(C)) + C);                    WK(w_try, 2)
GW(w_eof, dsl::while_(A) + dsl::eof);                             WK0(w_eof, 2)
GW(w_brack, dsl::round_bracketed.opt_list(A, dsl::sep(dsl::comma)) + B); WK(w_brack, 2)
G(w_expl, A + dsl::whitespace(dsl::ascii::space) + B);            WK(w_expl, 2)
G(w_expl_any, A + dsl::whitespace(LEXY_LIT("x") | comment) + B);  WK(w_expl_any, 2)
