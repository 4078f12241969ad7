// Lists, separators, terminators, brackets, error recovery.
#include "gen.hpp"
#define A LEXY_LIT("a")
#define B LEXY_LIT("b")
#define C LEXY_LIT("c")
#define S dsl::comma
#define E dsl::semicolon
struct item { static constexpr auto rule = A >> B; };
struct itemv { using vp_void = int; static constexpr auto rule = A >> B; };
struct ritem { static constexpr auto rule = A >> dsl::try_(B, dsl::find(S, E)); };
// plain lists
G(l_tok, dsl::list(dsl::capture(A)));                                           WK(l_tok, 2)
G(l_br, dsl::list(A >> B) + C);                                                 WK(l_br, 2)
G(l_prod, dsl::list(dsl::p<item>) + C);                                         WK(l_prod, 2)
G(l_sep, dsl::list(dsl::p<item>, dsl::sep(S)) + C);                             WK(l_sep, 2)
G(l_nosep, dsl::list(B, dsl::sep(S)) + C);                                      WK(l_nosep, 2)
G(l_sep_rule, dsl::list(dsl::capture(B), dsl::sep(S >> dsl::capture(A))));      WK(l_sep_rule, 2)
G(l_tsep, dsl::list(dsl::p<item>, dsl::trailing_sep(S)) + C);                   WK(l_tsep, 2)
G(l_sep_err, dsl::list(A >> B, dsl::sep(S).trailing_error<tag>) + C);           WK(l_sep_err, 2)
G(l_as_br, dsl::list(A >> B, dsl::sep(S)) >> C | B >> A);                       WK(l_as_br, 2)
G(l_optas, dsl::opt(dsl::list(A >> B, dsl::trailing_sep(S))) + C);              WK(l_optas, 2)
// terminators without recovery knowledge
#define TERM dsl::terminator(E)
G(t_rule, TERM(A >> B));                                                        WK(t_rule, 2)
G(t_rule2, TERM(dsl::p<item> + C));                                             WK(t_rule2, 2)
G(t_try, TERM.try_(dsl::p<item>));                                              WK(t_try, 2)
G(t_try_lim, TERM.limit(C).try_(dsl::p<item>));                                 WK(t_try_lim, 2)
G(t_opt, TERM.opt(dsl::p<item>));                                               WK(t_opt, 2)
G(t_optr, TERM.opt(B));                                                         WK(t_optr, 2)
G(t_list, TERM.list(dsl::p<item>));                                             WK(t_list, 2)
G(t_list_r, TERM.list(dsl::p<ritem>));                                          WK(t_list_r, 2)
G(t_list_s, TERM.list(dsl::p<item>, dsl::sep(S)));                              WK(t_list_s, 2)
G(t_list_n, TERM.list(B + A, dsl::sep(S)));                                     WK(t_list_n, 2)
G(t_list_t, TERM.list(dsl::p<item>, dsl::trailing_sep(S)));                     WK(t_list_t, 2)
G(t_list_i, TERM.list(dsl::p<item>, dsl::ignore_trailing_sep(S)));              WK(t_list_i, 2)
G(t_olist, TERM.opt_list(dsl::p<item>));                                        WK(t_olist, 2)
G(t_olist_s, TERM.opt_list(dsl::p<item>, dsl::sep(S)));                         WK(t_olist_s, 2)
G(t_olist_n, TERM.opt_list(B + A, dsl::trailing_sep(S)));                       WK(t_olist_n, 2)
G(t_list_l, TERM.limit(dsl::newline).list(dsl::p<item>, dsl::sep(S)));          WK(t_list_l, 2)
G(t_olist_l, TERM.limit(C).opt_list(dsl::p<item>, dsl::trailing_sep(S)));       WK(t_olist_l, 2)
// brackets
G(b_rule, dsl::round_bracketed(dsl::p<item>));                                  WK(b_rule, 2)
G(b_try, dsl::square_bracketed.try_(dsl::p<item>));                             WK(b_try, 2)
G(b_opt, dsl::curly_bracketed.opt(dsl::p<item>));                               WK(b_opt, 2)
G(b_list, dsl::angle_bracketed.list(dsl::p<item>, dsl::sep(S)));                WK(b_list, 2)
G(b_olist, dsl::parenthesized.opt_list(dsl::p<item>, dsl::trailing_sep(S)));    WK(b_olist, 2)
G(b_in_ch, dsl::round_bracketed(A) | dsl::square_bracketed.opt_list(B) | C);    WK(b_in_ch, 2)
G(b_while, dsl::while_(dsl::round_bracketed(A >> B)) + C);                      WK(b_while, 2)
// try and recovery
G(r_try, dsl::try_(A >> B));                                                    WK0(r_try, 2)
G(r_try_c, dsl::try_(A + B) + C);                                               WK(r_try_c, 2)
G(r_try_null, dsl::try_(A + B, dsl::nullopt) + C);                              WK(r_try_null, 2)
G(r_try_br, dsl::try_(A >> B, dsl::find(E)) | B >> C);                          WK(r_try_br, 2)
G(r_find, dsl::try_(A + B, dsl::find(S, E)) + dsl::opt(S) + C);                 WK(r_find, 2)
G(r_find_l, dsl::try_(A + B, dsl::find(S).limit(E)) + C);                       WK(r_find_l, 2)
G(r_rec, dsl::try_(A + B, dsl::recover(S >> A, E)) + C);                        WK(r_rec, 2)
G(r_rec_l, dsl::try_(A + B, dsl::recover(S >> A, E).limit(dsl::newline)) + C);  WK(r_rec_l, 2)
G(r_rec_p, dsl::try_(dsl::p<item> + B, dsl::recover(dsl::p<item>, E)) + C);     WK(r_rec_p, 2)
G(r_nest, dsl::try_(dsl::try_(A + B, dsl::find(S).limit(E)) + C, dsl::find(E))); WK(r_nest, 2)
G(r_while, dsl::while_(dsl::p<itemv> | S >> dsl::try_(A + B)) + C);             WK(r_while, 2)
// items and separators that match without consuming and then fail
#define PK dsl::peek(A) >> B
struct pitem { static constexpr auto rule = dsl::peek(A) >> B; };
struct ritem2
{
    static constexpr auto max_recursion_depth = 1;
    struct in { static constexpr auto rule = A | dsl::round_bracketed.list(dsl::recurse_branch<in>); };
    static constexpr auto rule = dsl::p<in> + C;
};
struct ritem3
{
    static constexpr auto max_recursion_depth = 1;
    struct in { static constexpr auto rule = A | dsl::round_bracketed.opt_list(dsl::recurse_branch<in>, dsl::sep(S)); };
    static constexpr auto rule = dsl::p<in> + C;
};
G(z_list, TERM.list(PK | C));                                                   WK(z_list, 2)
G(z_list_p, TERM.list(dsl::p<pitem> | C));                                      WK(z_list_p, 2)
G(z_list_s, TERM.list(PK | C, dsl::sep(S)));                                    WK(z_list_s, 2)
G(z_list_sp, TERM.list(C, dsl::sep(PK | S)));                                   WK(z_list_sp, 2)
G(z_list_st, TERM.opt_list(C, dsl::trailing_sep(PK | S)));                      WK(z_list_st, 2)
G(z_olist, TERM.opt_list(PK | C));                                              WK(z_olist, 2)
G(z_olist_s, TERM.limit(dsl::newline).opt_list(PK | C, dsl::trailing_sep(S)));  WK(z_olist_s, 2)
G(z_blist, dsl::round_bracketed.list(PK | C));                                  WK(z_blist, 2)
G(z_plain, dsl::list(PK | C, dsl::sep(S)));                                     WK(z_plain, 2)
G(z_find, dsl::try_(PK | C, dsl::recover(PK, E)) + C);                          WK(z_find, 2)
using p_z_rec = ritem2;                                                         WK(z_rec, 2)
using p_z_rec3 = ritem3;                                                        WK(z_rec3, 2)
