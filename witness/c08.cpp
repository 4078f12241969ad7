// The outcome does not depend on the action: match, validate, parse, parse_as_tree and trace agree with the plain parse.
#include "err.hpp"
#include <lexy/dsl/subgrammar.hpp>
#include <lexy/action/match.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/trace.hpp>
#include <lexy/action/scan.hpp>
#include <lexy/callback.hpp>
namespace
{
struct Count // an error callback that counts and remembers the first error
{
    vp::Er* first;
    int*    n;
    using return_type = void;
    struct S
    {
        vp::Er* first;
        int*    n;
        using return_type = unsigned long;
        template <typename C, typename R, typename T>
        void operator()(const C&, const lexy::error<R, T>& e)
        {
            if constexpr (std::is_same_v<T, lexy::expected_literal>) { if (!*n) *first = {vp::k_lit, vp::P(e.position()), nullptr, int(e.index())}; }
            else if constexpr (std::is_same_v<T, lexy::expected_char_class>) { if (!*n) *first = {vp::k_cc, vp::P(e.position()), nullptr}; }
            else { if (!*n) *first = {vp::kind_of<T>::value, vp::P(e.begin()), nullptr}; }
            if (*n < 4) ++*n;
        }
        unsigned long finish() && { return static_cast<unsigned long>(*n); }
    };
    auto sink() const { return S{first, n}; }
};
struct Out // an output iterator that drops what it gets
{
    using iterator_category = void; using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
    Out& operator*() { return *this; }
    Out& operator++() { return *this; }
    Out  operator++(int) { return *this; }
    Out& operator=(char) { return *this; }
};
template <typename P>
struct WV : P { static constexpr auto value = lexy::callback<int>([](auto&&...) { return 1; }); }; // not used
template <typename Prod, typename Input>
inline void agree(Input input)
{
    vp_cover_decl("success");
    vp_cover_decl("failed");
    vp::ELog base; // errors as the bare parse reports them
    vp::Log  log;
    bool     ok  = vp::run<Prod>(input, log);
    int      n   = int(log.errors);
    auto reader = input.reader();
    lexy::do_action<Prod, vp::ERes>(vp::EHandler{&base}, lexy::no_parse_state, reader);
    if (base.first.kind > vp::k_cc) base.first.kind = vp::k_other; // callbacks see generic errors without their tag
    if (ok && !n) vp_cover("success");
    else vp_cover("failed");

    bool m = lexy::match<Prod>(input);
    VP_CHECK("C08", m == (ok && n == 0), "match disagrees with the parse");

    vp::Er e;
    int    en = 0;
    auto   v  = lexy::validate<Prod>(input, Count{&e, &en});
    VP_CHECK("C08", (v.error_count() == 0) == (n == 0) && (v.error_count() == 1) == (n == 1), "validate reports another number of errors");
    VP_CHECK("C06", v.is_success() == (ok && n == 0), "validate: is_success");
    VP_CHECK("C06", v.is_error() == !(ok && n == 0), "validate: is_error");
    VP_CHECK("C06", v.is_recovered_error() == (ok && n > 0), "validate: is_recovered_error");
    VP_CHECK("C06", v.is_fatal_error() == !ok, "validate: is_fatal_error");
    VP_CHECK("C06", bool(v) == v.is_success(), "validate: conversion to bool");
    VP_CHECK("C08", e.kind == base.first.kind && e.b == base.first.b && e.index == base.first.index, "validate reports another first error");

    vp::Er e2;
    int    en2 = 0;
    auto   p   = lexy::parse<Prod>(input, Count{&e2, &en2});
    VP_CHECK("C08", p.error_count() == v.error_count(), "parse reports another number of errors");
    VP_CHECK("C06", p.is_success() == (ok && n == 0), "parse: is_success");
    VP_CHECK("C06", p.is_error() == !(ok && n == 0), "parse: is_error");
    VP_CHECK("C06", p.is_recovered_error() == (ok && n > 0), "parse: is_recovered_error");
    VP_CHECK("C06", p.is_fatal_error() == !ok, "parse: is_fatal_error");
    VP_CHECK("C08", e2.kind == base.first.kind && e2.b == base.first.b && e2.index == base.first.index, "parse reports another first error");
    if constexpr (!std::is_void_v<typename decltype(p)::value_type>) VP_CHECK("C06", p.has_value() == ok, "parse: has_value");

#ifndef NOTREE
    vp::Er e3;
    int    en3 = 0;
    lexy::parse_tree_for<Input> tree;
    auto   t = lexy::parse_as_tree<Prod>(tree, input, Count{&e3, &en3});
    VP_CHECK("C08", t.error_count() == v.error_count() && t.is_success() == v.is_success() && t.is_fatal_error() == v.is_fatal_error(), "parse_as_tree disagrees with validate");
    VP_CHECK("C08", e3.kind == base.first.kind && e3.b == base.first.b && e3.index == base.first.index, "parse_as_tree reports another first error");
    VP_CHECK("C15", !ok || !tree.empty(), "tree is empty after a successful parse");
#endif
#ifdef WITHTRACE
    lexy::trace_to<Prod>(Out{}, input);
#endif
}
} // namespace
#define AGP(name, n, prod) WITNESS(name) { vp_retain(n + 2); vp_maxlen(n); vp_exact(); agree<prod>(vp::tape_input<lexy::default_encoding>()); }
#define AG(name, n, rule_) struct p_##name { static constexpr auto rule = rule_; static constexpr auto value = lexy::noop; }; AGP(name, n, p_##name)

#define A LEXY_LIT("a")
#define B LEXY_LIT("b")
#define C LEXY_LIT("c")
#define S LEXY_LIT(";")
AG(lit, 3, A)
AG(litn, 3, LEXY_LIT("abc"))
AG(seq, 4, A + B + dsl::eof)
AG(choice, 4, A >> B | B >> C | dsl::ascii::digit >> A)
AG(choice_else, 4, A >> B | dsl::else_ >> C)
AG(opt, 4, dsl::opt(A >> B) + C)
AG(peek, 4, dsl::peek(LEXY_LIT("ab")) >> A + B | A >> C)
AG(peekerr, 4, A + dsl::peek(LEXY_LIT("bc")) + B)
AG(peeknot, 4, A + dsl::peek_not(B) + dsl::opt(C))
AG(look, 4, dsl::lookahead(B, C) >> dsl::while_(A) + B | A >> C)
AG(whil, 4, dsl::while_(A >> B) + dsl::eof)
AG(loop, 4, dsl::loop(A | B >> dsl::break_) + dsl::eof)
AG(list, 5, dsl::list(A, dsl::sep(B)))
AG(listt, 5, dsl::list(A, dsl::trailing_sep(B)) + dsl::eof)
AG(termlist, 5, dsl::terminator(S).list(A, dsl::sep(B)))
AG(termolist, 5, dsl::terminator(S).opt_list(A >> C, dsl::sep(B)))
AG(term, 5, dsl::terminator(S)(A + B))
AG(termtry, 5, dsl::terminator(S).try_(A + B))
AG(brack, 5, dsl::round_bracketed.list(A, dsl::sep(B)))
AG(bracktry, 5, dsl::round_bracketed.try_(A + B))
AG(brackopt, 5, dsl::round_bracketed.opt(A) + S)
AG(tryr, 4, dsl::try_(A + B, dsl::find(S)) + S)
AG(tryn, 4, dsl::try_(A + B) + C)
AG(eofr, 3, A + dsl::eof)
AG(quot, 4, dsl::quoted(dsl::ascii::print))
AG(quotesc, 5, dsl::quoted(dsl::ascii::print, dsl::backslash_escape.rule(dsl::lit_c<'n'>)))
AG(integer, 4, (dsl::integer<lexy::bounded<int, 99>> + dsl::eof))
AG(ident, 4, dsl::identifier(dsl::ascii::alpha).reserve(LEXY_KEYWORD("if", dsl::identifier(dsl::ascii::alpha))) + dsl::eof)
AG(comb, 4, dsl::combination(A, B) + dsl::eof)
AG(times, 4, dsl::times<2>(A, dsl::sep(B)) + dsl::eof)
AG(err, 3, A >> B | dsl::error<struct t_e>)
AG(must, 3, dsl::must(A >> B).error<struct t_m>)
AG(cap, 4, dsl::capture(dsl::token(A + B)) + dsl::position + dsl::opt(C >> dsl::nullopt))
AG(tok, 4, dsl::token(A + B) + dsl::eof)
AG(cpo, 4, dsl::ascii::alpha / dsl::lit_c<'_'> + dsl::newline)
AG(until, 4, dsl::until(B) + dsl::opt(A))
AG(scanerr, 4, dsl::opt(A) + dsl::if_(B >> C) + dsl::eof)
AG(count, 5, dsl::context_counter<struct t_c>.create() + dsl::while_(dsl::context_counter<struct t_c>.push(A)) + dsl::while_(dsl::context_counter<struct t_c>.pop(B)) + (dsl::context_counter<struct t_c>.is_zero() >> C | dsl::else_ >> dsl::error<struct t_d>))
AG(flag, 4, dsl::context_flag<struct t_f>.create() + dsl::opt(A >> dsl::context_flag<struct t_f>.set()) + (dsl::context_flag<struct t_f>.is_set() >> B | dsl::else_ >> C))
constexpr auto symt = lexy::symbol_table<int>.map<'a'>(1).map<'b'>(2);
AG(sym, 4, dsl::symbol<symt> + dsl::eof)
AG(sign, 3, dsl::sign + A)
// productions
struct in1 { static constexpr auto rule = A + B; static constexpr auto value = lexy::noop; };
struct in2 { static constexpr auto rule = B >> C | C >> A; static constexpr auto value = lexy::noop; };
struct in3 : lexy::transparent_production { static constexpr auto rule = B >> C | C >> A; static constexpr auto value = lexy::noop; };
struct in4 : lexy::token_production { static constexpr auto rule = A >> B; static constexpr auto value = lexy::noop; };
AG(prod, 5, dsl::p<in1> + dsl::p<in2>)
AG(prodb, 5, dsl::p<in2> | dsl::p<in4>)
AG(prodtry, 5, dsl::try_(dsl::p<in1>, dsl::find(S)) + S)
AG(prodt, 5, dsl::list(dsl::p<in3>, dsl::sep(S)))
AG(prodtt, 5, dsl::terminator(S).try_(dsl::p<in3> + A))
AG(inl, 5, dsl::inline_<in1> + C)
struct wsp { static constexpr auto whitespace = dsl::ascii::space; static constexpr auto rule = dsl::p<in4> + C + dsl::eof; static constexpr auto value = lexy::noop; };
AGP(ws, 4, wsp)
struct wsb { static constexpr auto whitespace = dsl::ascii::space | LEXY_LIT("#") >> dsl::until(dsl::newline); static constexpr auto rule = A + B; static constexpr auto value = lexy::noop; };
struct sg;
LEXY_DECLARE_SUBGRAMMAR(sg)
struct sg { using vp_void = int; static constexpr auto rule = A + dsl::opt(dsl::p<in2>) + dsl::try_(S); static constexpr auto value = lexy::noop; };
LEXY_DEFINE_SUBGRAMMAR(sg)
constexpr auto sg_ = dsl::subgrammar<sg, void>;
AG(subg, 5, dsl::opt(B) + sg_ + C)
AG(subgtry, 5, dsl::try_(sg_, dsl::find(C)) + C)
AGP(wscomment, 4, wsb)
struct rec
{
    static constexpr auto max_recursion_depth = 2;
    struct in_ { static constexpr auto rule = dsl::parenthesized.try_(dsl::recurse<in_>) | A; static constexpr auto value = lexy::noop; };
    static constexpr auto rule = dsl::p<in_> + dsl::eof; static constexpr auto value = lexy::noop;
};
AGP(recu, 6, rec)
struct expr : lexy::expression_production
{
    static constexpr auto atom = dsl::parenthesized(dsl::recurse<expr>) | A;
    struct opx : dsl::infix_op_left { static constexpr auto op = dsl::op(LEXY_LIT("+")); using operand = dsl::atom; };
    struct pre : dsl::prefix_op { static constexpr auto op = dsl::op(LEXY_LIT("-")); using operand = opx; };
    using operation = pre;
    static constexpr auto value = lexy::noop;
};
AGP(exprp, 5, expr)
struct exps : lexy::expression_production
{
    static constexpr auto atom = A;
    struct opx : dsl::infix_op_single { static constexpr auto op = dsl::op(LEXY_LIT("+")); using operand = dsl::atom; };
    struct list : dsl::infix_op_list { static constexpr auto op = dsl::op(LEXY_LIT(",")); using operand = opx; };
    using operation = list;
    static constexpr auto value = lexy::noop;
};
AGP(exprs, 6, exps)
