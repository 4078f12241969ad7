// Productions: recursion, context variables, scanning, members, expressions.
#include "gen.hpp"
#include <lexy/dsl/subgrammar.hpp>
#include <lexy/callback/noop.hpp>
#define A LEXY_LIT("a")
#define B LEXY_LIT("b")
#define C LEXY_LIT("c")
#define O dsl::lit_c<'('>
#define R dsl::lit_c<')'>
struct rec { static constexpr auto max_recursion_depth = 2; static constexpr auto rule = O >> dsl::recurse<rec> + R | A; };
WITNESS(rec) { vp_retain(2); vp::check<rec, lexy::default_encoding>(); }
struct recb { static constexpr auto max_recursion_depth = 2; static constexpr auto rule = dsl::opt(O >> dsl::recurse_branch<recb> + R | A) + B; };
struct recl { using vp_void = int; static constexpr auto rule = O >> dsl::while_(dsl::recurse_branch<recl>) + R | A; };
struct recr { static constexpr auto max_recursion_depth = 2; static constexpr auto rule = dsl::while_(dsl::p<recl>) + dsl::eof; };
WITNESS(recl) { vp_retain(2); vp::check<recr, lexy::default_encoding>(); }
struct recx { using vp_void = int; static constexpr auto rule = O >> dsl::try_(dsl::recurse<recx> + R, dsl::find(R)) + dsl::if_(R) | A; };
struct rect { static constexpr auto max_recursion_depth = 1; static constexpr auto rule = dsl::p<recx>; };
WITNESS(rect) { vp_retain(2); vp::check<rect, lexy::default_encoding>(); }
// context
struct ctr {};
struct ctr2 {};
constexpr auto cnt = dsl::context_counter<ctr>;
constexpr auto cnt2 = dsl::context_counter<ctr2>;
constexpr auto flg = dsl::context_flag<ctr>;
constexpr auto ident = dsl::identifier(dsl::ascii::alpha);
constexpr auto cid = dsl::context_identifier<ctr>(ident);
G(ctx_flag, flg.create() + dsl::opt(A >> flg.set()) + (flg.is_set() >> B | dsl::else_ >> C) + flg.value());  WK(ctx_flag, 2)
G(ctx_flag2, flg.create<true>() + dsl::while_(A >> flg.toggle()) + (flg.is_reset() >> B | dsl::else_ >> C)); WK(ctx_flag2, 2)
G(ctx_cnt, cnt.create() + dsl::opt(A >> cnt.inc()) + dsl::opt(B >> cnt.dec()) + (cnt.is_zero() >> C | dsl::else_ >> A) + cnt.value()); WK(ctx_cnt, 2)
G(ctx_push, cnt.create() + cnt.push(dsl::opt(A) + dsl::opt(B)) + (cnt.is<2>() >> C | dsl::else_ >> A)); WK(ctx_push, 2)
G(ctx_eq, cnt.create() + cnt2.create() + dsl::opt(A >> cnt.inc()) + dsl::opt(B >> cnt2.inc()) + dsl::equal_counts(cnt, cnt2)); WK0(ctx_eq, 2)
G(ctx_id, cid.create() + cid.capture() + dsl::comma + cid.rematch()); WITNESS(ctx_id) { vp_retain(6); vp_maxlen(6); vp_tape_domain('a', 'b'); vp_tape_domain_add(',', ','); vp::check<p_ctx_id, lexy::default_encoding>(); }
struct inn { static constexpr auto rule = cnt.create() + dsl::while_(A >> cnt.inc()) + B; };
G(ctx_nest, flg.create() + dsl::opt(A >> flg.set()) + dsl::p<inn> + (flg.is_set() >> C | dsl::else_ >> A)); WITNESS(ctx_nest) { vp_retain(8); vp_maxlen(6); vp_tape_domain(97, 100); vp::check<p_ctx_nest, lexy::default_encoding>(); }
// scanning
struct scn : lexy::scan_production<int>
{
    template <typename Context, typename Reader>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& sc)
    {
        sc.parse(A);
        if (!sc) return lexy::scan_failed;
        sc.parse(dsl::digits<>);
        if (sc.branch(B)) return 1;
        if (sc.peek(C)) { sc.parse(C); }
        else sc.fatal_error(tag{}, sc.begin(), sc.position());
        if (!sc)
        {
            auto guard = sc.error_recovery();
            if (sc.discard(dsl::ascii::alpha)) LEXY_MOV(guard).finish();
            else LEXY_MOV(guard).cancel();
        }
        if (!sc) return lexy::scan_failed;
        return 2;
    }
};
G(scan, dsl::p<scn> + A); WK(scan, 2)
// members and subrules producing values
struct agg { int x; const char* y; };
struct mem { static constexpr auto rule = (dsl::member<&agg::x> = dsl::integer<int>(dsl::n_digits<2>)) + (LEXY_MEM(y) = dsl::position(A)); };
G(member, dsl::p<mem> + B); WK(member, 2)
// expressions
struct ex : lexy::expression_production
{ static constexpr auto max_operator_nesting = 2;
    static constexpr auto atom = A | dsl::parenthesized(dsl::recurse<ex>);
    struct post : dsl::postfix_op { static constexpr auto op = dsl::op(LEXY_LIT("!")); using operand = dsl::atom; };
    struct pre : dsl::prefix_op { static constexpr auto op = dsl::op(LEXY_LIT("-")) / dsl::op(LEXY_LIT("~")); using operand = post; };
    struct mul : dsl::infix_op_left { static constexpr auto op = dsl::op(LEXY_LIT("*")); using operand = pre; };
    struct add : dsl::infix_op_right { static constexpr auto op = dsl::op(LEXY_LIT("+")); using operand = mul; };
    struct lst : dsl::infix_op_list { static constexpr auto op = dsl::op(LEXY_LIT(",")); using operand = add; };
    struct cmp : dsl::infix_op_single { static constexpr auto op = dsl::op(LEXY_LIT("==")); using operand = lst; };
    using operation = cmp;
};
struct exr { static constexpr auto max_recursion_depth = 1; static constexpr auto rule = dsl::p<ex> + dsl::eof; };
WITNESS(expr) { vp_retain(3); vp::check<exr, lexy::default_encoding>(); }
struct exg : lexy::expression_production
{
    static constexpr auto whitespace = dsl::lit_c<' '>;
    static constexpr auto max_operator_nesting = 2;
    static constexpr auto atom = A;
    struct band : dsl::infix_op_left { static constexpr auto op = dsl::op(LEXY_LIT("&") >> dsl::opt(B)); using operand = dsl::atom; };
    struct bor : dsl::infix_op_left { static constexpr auto op = dsl::op(LEXY_LIT("|")); using operand = dsl::atom; };
    struct shl : dsl::infix_op_left { static constexpr auto op = dsl::op(dsl::not_followed_by(LEXY_LIT("<<"), dsl::lit_c<'='>)); using operand = dsl::groups<band, bor>; };
    using operation = shl;
};
WITNESS(expr_grp) { vp_retain(3); vp::check<exg, lexy::default_encoding>(); }
// a grammar inside of the grammar
struct sg_in { static constexpr auto rule = A + dsl::opt(B) + dsl::try_(C); static constexpr auto value = lexy::noop; };
struct sg;
LEXY_DECLARE_SUBGRAMMAR(sg)
struct sg { using vp_void = int; static constexpr auto whitespace = dsl::lit_c<' '>; static constexpr auto rule = dsl::p<sg_in> + dsl::flag(B); };
LEXY_DEFINE_SUBGRAMMAR(sg)
G(subg, dsl::opt(O) + dsl::subgrammar<sg, void> + R); WITNESS(subg) { vp_retain(2); vp::check<p_subg, lexy::default_encoding>(); }
G(subgt, dsl::try_(dsl::subgrammar<sg, void>, dsl::find(R)) + R); WITNESS(subgt) { vp_retain(2); vp::check<p_subgt, lexy::default_encoding>(); }
