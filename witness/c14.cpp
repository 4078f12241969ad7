// Recursion limits: nothing nests deeper than declared, nothing within the limit is refused.
#define ACC_CODE "C14"
#include "acc.hpp"
using namespace ref;
#define A LEXY_LIT("a")
#define B LEXY_LIT("b")
// every way of recursing, limit N
template <int N, int Kind> struct R
{
    static constexpr auto max_recursion_depth = N;
    struct in2;
    struct in
    {
        static constexpr auto body()
        {
            if constexpr (Kind == 0) return A | dsl::parenthesized(dsl::recurse<in>);
            else if constexpr (Kind == 1) return A | dsl::parenthesized(dsl::recurse_branch<in>);
            else if constexpr (Kind == 2) return A | LEXY_LIT("(") >> (dsl::recurse_branch<in> | dsl::else_ >> dsl::nullopt) + LEXY_LIT(")");
            else if constexpr (Kind == 3) return A | LEXY_LIT("(") >> dsl::p<in2>;
            else if constexpr (Kind == 4) return A | LEXY_LIT("(") >> dsl::opt(dsl::peek(LEXY_ASCII_ONE_OF("a(")) >> dsl::recurse<in>) + LEXY_LIT(")");
            else return A | dsl::parenthesized.list(dsl::recurse_branch<in>);
        }
        static constexpr auto rule = body();
    };
    struct in2 { static constexpr auto rule = dsl::recurse<in> + LEXY_LIT(")"); };
    static constexpr auto rule = dsl::p<in>;
};
static bool nest(Ch& c, int d, int max, int kind)
{
    if (c.eat('a')) return true;
    if (!c.eat('(')) return false;
    if (kind == 2 || kind == 4) { if (!c.is('a') && !c.is('(')) return c.eat(')'); }
    if (kind == 5)
    {
        do { if (d == max || !nest(c, d + 1, max, kind)) return false; } while (c.is('a') || c.is('('));
        return c.eat(')');
    }
    if (d == max) return false;
    return nest(c, d + 1, max, kind) && c.eat(')');
}
#define REC(name, n, N, K) using t_##name = R<N, K>; ACCP(name, n, t_##name, return nest(c, 0, N, K);)
REC(p1, 7, 1, 0) REC(p2, 9, 2, 0) REC(p3, 11, 3, 0)
REC(b1, 7, 1, 1) REC(b2, 9, 2, 1) REC(b3, 11, 3, 1)
REC(c1, 7, 1, 2) REC(c2, 9, 2, 2)
REC(m1, 7, 1, 3) REC(m2, 9, 2, 3)
REC(k1, 7, 1, 4) REC(k2, 9, 2, 4)
REC(l1, 7, 1, 5) REC(l2, 8, 2, 5)
// mutual recursion counts both
struct M
{
    static constexpr auto max_recursion_depth = 3;
    struct y;
    struct x { static constexpr auto rule = A | dsl::square_bracketed(dsl::recurse<y>); };
    struct y { static constexpr auto rule = B | dsl::parenthesized(dsl::recurse<x>); };
    static constexpr auto rule = dsl::p<x>;
};
static bool mx(Ch& c, int d);
static bool my(Ch& c, int d) { if (c.eat('b')) return true; return c.eat('(') && d < 3 && mx(c, d + 1) && c.eat(')'); }
static bool mx(Ch& c, int d) { if (c.eat('a')) return true; return c.eat('[') && d < 3 && my(c, d + 1) && c.eat(']'); }
ACCP(mutual, 10, M, return mx(c, 0);)
// the limit of the entry production counts, intermediate dsl::p do not
struct I
{
    static constexpr auto max_recursion_depth = 1;
    struct z { static constexpr auto rule = A; };
    struct y { static constexpr auto rule = dsl::p<z>; };
    struct x { static constexpr auto max_recursion_depth = 9; static constexpr auto rule = dsl::p<y> | dsl::parenthesized(dsl::recurse<x>); };
    static constexpr auto rule = dsl::p<x>;
};
ACCP(inter, 7, I, return nest(c, 0, 1, 0);)
// recursion in one element does not use up the level of the next
struct L
{
    static constexpr auto max_recursion_depth = 1;
    struct x { static constexpr auto rule = A | dsl::parenthesized(dsl::recurse<x>); };
    static constexpr auto rule = dsl::list(dsl::p<x>) + dsl::eof;
};
ACCP(seq, 8, L, do { if (!nest(c, 0, 1, 0)) return false; } while (!c.end()); return true;)
struct L2
{
    static constexpr auto max_recursion_depth = 2;
    struct x { static constexpr auto rule = A | LEXY_LIT("(") >> dsl::recurse<x> + dsl::recurse<x>; };
    static constexpr auto rule = dsl::p<x>;
};
static bool two(Ch& c, int d) { if (c.eat('a')) return true; return c.eat('(') && d < 2 && two(c, d + 1) && two(c, d + 1); }
ACCP(two_, 8, L2, return two(c, 0);)
// inside parse_as, captures, lists
struct PA
{
    static constexpr auto max_recursion_depth = 2;
    struct x { static constexpr auto rule = A | dsl::parenthesized(dsl::parse_as<vp::Val>(dsl::recurse<x>)); };
    static constexpr auto rule = dsl::p<x>;
};
ACCP(parse_as, 9, PA, return nest(c, 0, 2, 0);)
// custom error
struct T
{
    static constexpr auto max_recursion_depth = 1;
    struct x { static constexpr auto rule = A | dsl::parenthesized(dsl::recurse<x>.max_depth_error<struct tooo>); };
    static constexpr auto rule = dsl::p<x>;
};
ACCP(tag, 7, T, return nest(c, 0, 1, 0);)
// expressions: recursion through the atom, and at most so many operators in one expression
template <int N> struct E : lexy::expression_production
{
    static constexpr auto max_recursion_depth = N;
    static constexpr auto atom = dsl::parenthesized(dsl::recurse<E>) | A;
    struct add : dsl::infix_op_left { static constexpr auto op = dsl::op(LEXY_LIT("+")); using operand = dsl::atom; };
    using operation = add;
};
static bool ex(Ch& c, int d, int max) { while (true) { if (!c.eat('a')) { if (!c.eat('(') || d == max || !ex(c, d + 1, max) || !c.eat(')')) return false; } if (!c.eat('+')) return true; } }
ACCP(expr1, 7, E<1>, return ex(c, 0, 1);)
ACCP(expr2, 8, E<2>, return ex(c, 0, 2);)
template <int Kind> struct O : lexy::expression_production
{
    static constexpr auto max_operator_nesting = 2;
    static constexpr auto atom = A;
    struct l : dsl::infix_op_left { static constexpr auto op = dsl::op(LEXY_LIT("+")); using operand = dsl::atom; };
    struct r : dsl::infix_op_right { static constexpr auto op = dsl::op(LEXY_LIT("+")); using operand = dsl::atom; };
    struct li : dsl::infix_op_list { static constexpr auto op = dsl::op(LEXY_LIT("+")); using operand = dsl::atom; };
    struct pr : dsl::prefix_op { static constexpr auto op = dsl::op(LEXY_LIT("+")); using operand = dsl::atom; };
    struct po : dsl::postfix_op { static constexpr auto op = dsl::op(LEXY_LIT("+")); using operand = dsl::atom; };
    using operation = std::conditional_t<Kind == 0, l, std::conditional_t<Kind == 1, r, std::conditional_t<Kind == 2, li, std::conditional_t<Kind == 3, pr, po>>>>;
};
static bool inf(Ch& c) { int n = 0; while (true) { if (!c.eat('a')) return false; if (!c.eat('+')) return true; if (++n > 2) return false; } }
ACCP(op_l, 8, O<0>, return inf(c);)
ACCP(op_r, 8, O<1>, return inf(c);)
ACCP(op_pre, 6, O<3>, int n = 0; while (c.eat('+')) if (++n > 2) return false; return c.eat('a');)
ACCP(op_post, 6, O<4>, int n = 0; if (!c.eat('a')) return false; while (c.eat('+')) if (++n > 2) return false; return true;)
