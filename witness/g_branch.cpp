// Branches, choices, options, loops, peeks, sequences, combinations.
#include "gen.hpp"
#define A LEXY_LIT("a")
#define B LEXY_LIT("b")
#define C LEXY_LIT("c")
#define AB LEXY_LIT("ab")
G(seq, A + AB + dsl::digits<>);                                     WK(seq, 2)
G(br, A >> B + C);                                                  WK(br, 2)
G(choice, A >> B | AB >> C | dsl::digits<>);                        WK(choice, 2)
G(choice_else, A >> B | dsl::else_ >> C);                           WK(choice_else, 2)
struct inner { static constexpr auto rule = A >> B; };
struct inner_t { static constexpr auto rule = dsl::ascii::alpha + dsl::digits<>; };
struct inner_tok : lexy::token_production { static constexpr auto rule = A >> dsl::while_(B); };
struct inner_tr : lexy::transparent_production { static constexpr auto rule = A >> B; };
G(choice_p, dsl::p<inner> | dsl::digits<> >> C);                    WK(choice_p, 2)
G(choice_peek, dsl::peek(A + B) >> inner_t{}.rule | dsl::else_ >> dsl::p<inner_t>); WK(choice_peek, 3)
G(peek_not, dsl::peek_not(AB) >> dsl::ascii::alpha | AB >> C);      WK(peek_not, 3)
G(peek_prod, dsl::peek(dsl::p<inner_t>) >> dsl::p<inner_t> | dsl::else_ >> C); WK(peek_prod, 3)
G(peek_err, dsl::peek(A).error<tag> + dsl::any);                    WK0(peek_err, 2)
G(peek_not_err, dsl::peek_not(A).error<tag> + dsl::ascii::alpha);   WK(peek_not_err, 2)
G(look, dsl::lookahead(A, B).error<tag> + dsl::while_(dsl::ascii::alpha)); WL0(look, 8, 7)
G(look_br, dsl::lookahead(AB, dsl::newline) >> dsl::while_(dsl::ascii::alpha) | dsl::else_ >> C); WL(look_br, 8, 7)
G(opt, dsl::opt(A >> B) + C);                                       WK(opt, 2)
G(opt_prod, dsl::opt(dsl::p<inner>) + dsl::opt(dsl::p<inner_tok>) + C); WK(opt_prod, 2)
G(if_, dsl::if_(A >> B) + C);                                       WK(if_, 2)
G(while_, dsl::while_(A >> B) + C);                                 WK(while_, 2)
G(while_one, dsl::while_one(A >> B) + C);                           WK(while_one, 2)
G(do_while, dsl::do_while(B, A >> B) + C);                          WK(do_while, 2)
G(loop, dsl::loop(A >> B | C >> dsl::break_));                      WK(loop, 2)
G(loop_else, dsl::loop(A | B >> dsl::break_ | dsl::else_ >> C + dsl::break_)); WK(loop_else, 2)
struct inner_v { using vp_void = int; static constexpr auto rule = A >> B; };
G(loop_p, dsl::loop(dsl::p<inner_v> | dsl::else_ >> dsl::break_) + C); WK(loop_p, 2)
G(error, A | dsl::error<tag>);                                      WK(error, 2)
G(error_r, A | dsl::error<tag>(dsl::while_(B)));                    WK(error_r, 2)
G(must, dsl::must(A >> B).error<tag>);                              WK(must, 2)
G(token_err, dsl::token(A + B).error<tag>);                         WK(token_err, 2)
G(times, dsl::times<3>(A >> B));                                    WK(times, 2)
G(twice, dsl::twice(dsl::digit<>, dsl::sep(dsl::comma)));           WK(twice, 2)
G(times_tsep, dsl::times<2>(dsl::digit<>, dsl::trailing_sep(dsl::comma))); WK(times_tsep, 2)
G(repeat, dsl::repeat(dsl::integer<int>(dsl::n_digits<2, dsl::binary>))(A));    WITNESS(repeat) { vp_retain(3); vp_tape_domain('0', '1'); vp_tape_domain_add('a', 'a'); vp::check<p_repeat, lexy::default_encoding>(); }
G(comb, dsl::combination(A >> B, C, dsl::digit<>));                 WK(comb, 2)
G(pcomb, dsl::partial_combination(A >> B, C) + dsl::digit<>);       WK(pcomb, 2)
G(comb_err, dsl::combination(A, B).missing_error<tag>.duplicate_error<tag>); WK(comb_err, 2)
G(pos, dsl::position + A + dsl::position(B));                       WK(pos, 2)
G(nullopt, dsl::nullopt + A);                                       WK(nullopt, 2)
enum class flagA { x = 1, y = 2 };
constexpr auto ftable = lexy::symbol_table<flagA>.map<'x'>(flagA::x).map<'y'>(flagA::y);
G(flags, dsl::flags(dsl::symbol<ftable>) + C);                                   WK(flags, 2)
G(flag, dsl::flag(A >> B) + C);                                     WK(flag, 2)
G(follow, dsl::not_followed_by(A, B) + dsl::opt(C));                WK(follow, 2)
G(followed, dsl::followed_by(A, dsl::ascii::digit) + dsl::digit<>);  W(followed, ascii)
G(prod, dsl::p<inner_t> + dsl::p<inner>);                           WK(prod, 2)
G(prod_tok, dsl::p<inner_tok> + C);                                 WK(prod_tok, 2)
G(prod_tr, dsl::p<inner_tr> + dsl::p<inner_tr>);                    WK(prod_tr, 2)
G(capture, dsl::capture(dsl::p<inner_tok>) + dsl::capture(A));        WK(capture, 2)
G(parse_as, dsl::parse_as<int>(A >> B) + C);                        WK(parse_as, 2)
G(sub_br, (A >> B | B >> C) >> A | C);                              WK(sub_br, 2)
G(br_chain, AB >> C | LEXY_LIT("ac") >> B | A >> A);                      WK(br_chain, 3)
G(br_seq, dsl::peek(A) >> A + B | dsl::position(B) >> C);          WK(br_seq, 2)
G(br_list, dsl::list(A >> B) >> C | dsl::digits<> >> A);            WK(br_list, 2)
G(ret, A >> dsl::return_ | B >> C);                                 WK(ret, 2)
