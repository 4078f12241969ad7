// Expression productions: for every sequence of operands and operators up to the bound, the callback calls, the
// operation nodes and the errors are those of an operator-precedence reference with an explicit stack.
#include "acc.hpp"
#include <lexy/dsl.hpp>
#include <lexy/token.hpp>
#include <lexy/input/string_input.hpp>
#define CHECK(c, m) VP_CHECK("C21", c, m)
namespace
{
namespace dsl = lexy::dsl;
constexpr int N_ENT = 20, N_CH = 14, N_IT = 60, N_ERR = 8;
const char* base; // start of the input
int at(const void* p) { return int(static_cast<const char*>(p) - base); }
//=== what was observed or expected ===//
struct Ent { int tag, n, ch[N_CH]; }; // a value: operands are value numbers, operators 1000 + 16 * tag + offset
struct It { int ev, id; };            // 0 enter operation id, 1 leave it, 2 token at offset id
struct Err { char kind; int pos; };
struct Log
{
    Ent e[N_ENT]; int n = 0;
    It  it[N_IT]; int m = 0;
    Err err[N_ERR]; int k = 0;
    int  result = -1; // value number, -1 if there is none
    int  end    = 0;
    int ent(int tag, int c, const int* ch)
    {
        if (n == N_ENT || c > N_CH) vp_imprecise();
        e[n].tag = tag; e[n].n = c;
        for (int i = 0; i < c; ++i) e[n].ch[i] = ch[i];
        return n++;
    }
    void item(int ev, int id) { if (m == N_IT) vp_imprecise(); it[m++] = {ev, id}; }
    void insert(int i, int ev, int id) { item(ev, id); for (int j = m - 1; j > i; --j) it[j] = it[j - 1]; it[i] = {ev, id}; }
    void error(char kind, int pos) { if (k == N_ERR) vp_imprecise(); err[k++] = {kind, pos}; }
};
Log* g;
//=== values ===//
struct V { int id; };
template <int N> struct T { int off; constexpr T(const char* p) : off(at(p)) {} };
enum { LEAF, NODE, LIST };
template <int N> int word(T<N> t) { return 1000 + 16 * N + t.off; }
struct Val
{
    using return_type = V;
    template <typename R> V operator()(lexy::lexeme<R> l) const { int c = at(l.begin()); return {g->ent(LEAF, 1, &c)}; }
    V operator()(V v) const { return v; } // parentheses
    template <int N> V operator()(T<N> t, V v) const { int c[] = {word(t), v.id}; return {g->ent(NODE, 2, c)}; }
    template <int N> V operator()(V v, T<N> t) const { int c[] = {v.id, word(t)}; return {g->ent(NODE, 2, c)}; }
    template <int N> V operator()(V v, T<N> t, V w) const { int c[] = {v.id, word(t), w.id}; return {g->ent(NODE, 3, c)}; }
    template <int N> V operator()(V v, T<N> t, V x, V w) const { int c[] = {v.id, word(t), x.id, w.id}; return {g->ent(NODE, 4, c)}; }
    struct S
    {
        using return_type = V;
        int n = 0, ch[N_CH];
        void put(int w) { if (n == N_CH) vp_imprecise(); ch[n++] = w; }
        void operator()(V v) { put(v.id); }
        template <int N> void operator()(T<N> t) { put(word(t)); }
        V finish() && { return {g->ent(LIST, n, ch)}; }
    };
    S sink() const { return {}; }
};
//=== observation ===//
template <bool Values> struct H
{
    struct event_handler
    {
        bool expr;
        int  chain[24], chains = 0;
        event_handler(lexy::production_info i) : expr(false) {}
        template <typename It> int on(H&, lexy::parse_events::operation_chain_start, It) { if (chains == 24) vp_imprecise(); chain[chains++] = g->m; return 0; }
        template <typename Op, typename It> void on(H&, lexy::parse_events::operation_chain_op, Op, It)
        {
            g->insert(chain[chains - 1], 0, Op::tag);
            g->item(1, Op::tag);
        }
        template <typename It> void on(H&, lexy::parse_events::operation_chain_finish, int, It) { --chains; }
        template <typename K, typename It> void on(H&, lexy::parse_events::token, K k, It b, It e)
        {
            if (lexy::token_kind<void>(k) == lexy::whitespace_token_kind || b == e) return;
            g->item(2, at(b));
        }
        template <typename R> void on(H&, lexy::parse_events::grammar_finish, R& r) { g->end = at(r.position()); }
        template <typename R, typename Tag> void on(H&, lexy::parse_events::error, const lexy::error<R, Tag>& e)
        {
            char k = std::is_same_v<Tag, lexy::operator_chain_error> ? 'c' : std::is_same_v<Tag, lexy::operator_group_error> ? 'g' : std::is_same_v<Tag, lexy::max_operator_nesting_exceeded> ? 'n' : 'e';
            g->error(k, at(e.position()));
        }
        template <typename E, typename... A> requires(!std::is_same_v<E, lexy::parse_events::error>) int on(H&, E, A&&...) { return 0; }
    };
    template <typename P, typename S> using value_callback = std::conditional_t<Values, lexy::production_value_callback<P, S>, lexy::_detail::void_value_callback>;
    template <typename R, typename X> R get_result(bool ok, X&& v) && { g->result = v.id; return {}; }
    template <typename R> R get_result(bool ok) && { if (ok && !Values) g->result = 0; return {}; }
};
struct Nothing {};
template <typename> using NoRes = Nothing;
//=== reference ===//
// kind: P prefix, Q postfix, L left, R right, S single, M list. close: the operator continues with an expression and this character.
struct Op { char kind; const char* lit; int level, group, tag; char close = 0; char not_before = 0; int more = 0; int operation() const { return more ? more : tag; } };
struct Gram { const Op* op; int n, root; unsigned nesting; bool ws; };
using Cu = ref::Ch;
struct Ref
{
    const Gram& gr;
    Log&        l;
    void ws(Cu& c) { if (gr.ws) while (c.eat(' ')) {} }
    int lhs(const Op& o) { return o.kind == 'P' ? 0 : o.kind == 'R' || o.kind == 'Q' ? 2 * o.level + 1 : 2 * o.level; }
    int rhs(const Op& o) { return o.kind == 'Q' ? 0 : o.kind == 'R' ? 2 * o.level : 2 * o.level + 1; }
    // the longest operator that fits here
    const Op* find(Cu c, bool pre, int min, const char*& end)
    {
        const Op* best = nullptr;
        int       len  = 0;
        for (int i = 0; i < gr.n; ++i)
        {
            auto& o = gr.op[i];
            if ((o.kind == 'P') != pre || (pre ? rhs(o) : lhs(o)) < min) continue;
            auto q = c;
            if (!q.lit(o.lit)) continue;
            if (o.not_before && q.is(static_cast<unsigned char>(o.not_before))) continue;
            if (int(q.p - c.p) > len) { best = &o; len = int(q.p - c.p); end = q.p; }
        }
        return best;
    }
    // another operator of the same operation
    const Op* again(Cu c, const Op& of, const char*& end)
    {
        for (int i = 0; i < gr.n; ++i)
        {
            auto q = c;
            if (gr.op[i].operation() == of.operation() && q.lit(gr.op[i].lit)) { end = q.p; return &gr.op[i]; }
        }
        return nullptr;
    }
    bool expr(Cu& c, int root, int& value)
    {
        struct Pend { const Op* o; int n, ch[N_CH], start; } st[8];
        int      sp = 0, cur = -1, cur_start = 0, group = 0;
        unsigned count = 0;
        bool     have = false, ok = true, operand = true;
        // fail: what is pending gives its left operand back
        auto enter = [&](const Op& o, const char* pos) { // an operator was read
            if (count++ >= gr.nesting) { l.error('n', at(pos)); c.p = pos; return false; }
            if (o.group && !group) group = o.group;
            else if (o.group && group != o.group) l.error('g', at(pos));
            return true;
        };
        auto extra = [&](const Op& o, int* ch, int& n) {
            if (!o.close) return true;
            int v = -1;
            if (!expr(c, gr.root, v)) return false;
            ch[n++] = v;
            auto p = c.p;
            if (!c.eat(static_cast<unsigned char>(o.close))) { l.error('e', at(p)); return false; }
            l.item(2, at(p));
            ws(c);
            return true;
        };
        while (ok)
        {
            if (operand)
            {
                int         min = sp ? rhs(*st[sp - 1].o) : root;
                const char* end;
                auto        p = c.p;
                if (auto o = find(c, true, min, end))
                {
                    have = false;
                    if (sp == 8) vp_imprecise();
                    c.p = end;
                    if (!enter(*o, p)) { ok = false; break; }
                    auto& x = st[sp++];
                    x = {o, 1, {1000 + 16 * o->tag + at(p)}, l.m};
                    l.item(2, at(p));
                    ws(c);
                    if (!extra(*o, x.ch, x.n)) { --sp; ok = false; break; }
                    continue;
                }
                have = false;
                cur_start = l.m;
                if (c.eat('x'))
                {
                    int off = at(p);
                    l.item(2, off);
                    ws(c);
                    cur = l.ent(LEAF, 1, &off);
                }
                else if (c.eat('('))
                {
                    l.item(2, at(p));
                    ws(c);
                    if (!expr(c, gr.root, cur)) { ok = false; break; }
                    auto p2 = c.p;
                    if (!c.eat(')')) { l.error('e', at(p2)); ok = false; break; }
                    l.item(2, at(p2));
                    ws(c);
                }
                else { l.error('e', at(p)); ok = false; break; }
                have = true; operand = false;
                continue;
            }
            // after an operand: the operator that the innermost pending operation takes, else that operation is complete
            const char* end;
            auto        p = c.p;
            int         min = sp ? rhs(*st[sp - 1].o) : root;
            auto        o   = find(c, false, min, end);
            if (!o && !sp) break;
            if (!o)
            {
                auto& x = st[sp - 1];
                if (x.n == N_CH) vp_imprecise();
                x.ch[x.n++] = cur;
                if (x.o->kind == 'M')
                {
                    // more of the list
                    if (auto o2 = again(c, *x.o, end))
                    {
                        if (x.n == N_CH) vp_imprecise();
                        x.ch[x.n++] = 1000 + 16 * o2->tag + at(p);
                        l.item(2, at(p));
                        c.p = end;
                        ws(c);
                        operand = true;
                        continue;
                    }
                }
                cur = l.ent(x.o->kind == 'M' ? LIST : NODE, x.n, x.ch);
                cur_start = x.start;
                l.insert(cur_start, 0, x.o->operation());
                l.item(1, x.o->operation());
                if (x.o->kind == 'S' && again(c, *x.o, end)) l.error('c', at(p));
                --sp;
                continue;
            }
            c.p = end;
            if (!enter(*o, p)) { ok = false; break; }
            if (sp == 8) vp_imprecise();
            auto& x = st[sp];
            x = {o, 2, {cur, 1000 + 16 * o->tag + at(p)}, cur_start};
            l.item(2, at(p));
            ws(c);
            if (!extra(*o, x.ch, x.n)) { ok = false; break; }
            if (o->kind == 'Q')
            {
                cur = l.ent(NODE, x.n, x.ch);
                l.insert(cur_start, 0, o->operation());
                l.item(1, o->operation());
            }
            else { ++sp; operand = true; }
        }
        if (!ok)
            for (; sp; --sp)
            {
                auto& x = st[sp - 1];
                if (x.o->kind == 'M')
                {
                    if (have) { if (x.n == N_CH) vp_imprecise(); } // the operand that failed is not part of it
                    cur = l.ent(LIST, x.n, x.ch);
                    have = true;
                }
                else if (x.o->kind != 'P') { cur = x.ch[0]; have = true; }
            }
        value = cur;
        return have;
    }
};
template <bool Values, typename Prod, typename Input> inline void check(const Input& input, const Log& want, bool ok, int v)
{
    Log got;
    g = &got;
    auto reader = input.reader();
    lexy::do_action<Prod, NoRes>(H<Values>{}, lexy::no_parse_state, reader);
    CHECK((got.result >= 0) == ok, ok ? "no value although an operand was complete" : "value although no operand was complete");
    CHECK(got.k == want.k, "another number of errors than documented");
    for (int i = 0; i < want.k; ++i)
    {
        CHECK(got.err[i].kind == want.err[i].kind, "another error than documented");
        CHECK(got.err[i].pos == want.err[i].pos, "error at another position than documented");
    }
    if (Values)
    {
        CHECK(got.n == want.n, "another number of values than the expression has operations and operands");
        for (int i = 0; i < want.n; ++i)
        {
            CHECK(got.e[i].tag == want.e[i].tag && got.e[i].n == want.e[i].n, "operation of another kind");
            for (int j = 0; j < want.e[i].n; ++j) CHECK(got.e[i].ch[j] == want.e[i].ch[j], "operation applied to other operands or operators than precedence and associativity demand");
        }
        if (ok) CHECK(got.result == v, "result is another operation than the outermost one");
    }
    bool fatal = false;
    for (int i = 0; i < want.k; ++i) fatal |= want.err[i].kind == 'e' || want.err[i].kind == 'n';
    if (ok && !fatal)
    {
        CHECK(got.end == want.end, "expression ends at another position");
        CHECK(got.m == want.m, "another number of operation nodes and tokens");
        for (int i = 0; i < want.m; ++i) CHECK(got.it[i].ev == want.it[i].ev && got.it[i].id == want.it[i].id, "operation nodes nest differently from the operations");
    }
}
template <typename Prod> inline void run(int n, const Gram& gr, const char* alphabet)
{
    vp_cover_decl("no errors");
    vp_cover_decl("errors");
    n += vp::MORE;
    vp_retain(n + 2); vp_maxlen(n); vp_exact(); vp_depth(300);
    base = static_cast<const char*>(vp_tape(1, -1, 0));
    for (auto p = alphabet; *p; ++p) p == alphabet ? vp_tape_domain(*p, *p) : vp_tape_domain_add(*p, *p);
    lexy::string_input<lexy::default_encoding> input(base, static_cast<const char*>(vp_tape_end()));
    Log want;
    Cu  c{base};
    g = &want;
    Ref r{gr, want};
    r.ws(c);
    int  v  = -1;
    bool ok = r.expr(c, gr.root, v);
    want.end = at(c.p);
    check<true, Prod>(input, want, ok, v);
    check<false, Prod>(input, want, ok, v);
    if (want.k == 0) vp_cover("no errors");
    else vp_cover("errors");
}
#define LIT LEXY_LIT
#define OP(Name, Base, t, rule_, Operand) struct Name : dsl::Base { static constexpr int tag = t; static constexpr auto op = dsl::op<T<t>>(rule_); using operand = Operand; }
#define ATOM(E) dsl::capture(LEXY_LIT("x")) | LEXY_LIT("(") >> dsl::recurse<struct E> + LEXY_LIT(")")
#define RUN(name, E, n, alpha, root, nesting, ws, ...) struct t_##name { static constexpr auto max_recursion_depth = 100; static constexpr auto rule = dsl::p<E>; static constexpr auto value = lexy::forward<V>; }; \
    WITNESS(name) { static constexpr Op ops[] = {__VA_ARGS__}; Gram gr{ops, int(sizeof(ops) / sizeof(ops[0])), root, nesting, ws}; run<t_##name>(n, gr, alpha); }

// arithmetic: every kind of associativity once
struct E1 : lexy::expression_production
{
    static constexpr auto atom = dsl::capture(LIT("x"));
    OP(Post, postfix_op, 5, LIT("!"), dsl::atom);
    OP(Neg, prefix_op, 4, LIT("-"), Post);
    OP(Mul, infix_op_left, 2, LIT("*"), Neg);
    OP(Add, infix_op_left, 1, LIT("+"), Mul);
    using operation = Add;
    static constexpr auto value = Val{};
};
RUN(arith, E1, 7, "x+*-!", 2, 256, false, {'L', "+", 1, 0, 1}, {'L', "*", 2, 0, 2}, {'P', "-", 3, 0, 4}, {'Q', "!", 4, 0, 5})
// list, right, single with several operators
struct E2 : lexy::expression_production
{
    static constexpr auto atom = dsl::capture(LIT("x"));
    struct Cmp : dsl::infix_op_single { static constexpr int tag = 3; static constexpr auto op = dsl::op<T<3>>(LIT("<")) / dsl::op<T<6>>(LIT("<<")); using operand = dsl::atom; };
    OP(Asg, infix_op_right, 2, LIT("="), Cmp);
    struct Lst : dsl::infix_op_list { static constexpr int tag = 1; static constexpr auto op = dsl::op<T<1>>(LIT(",")) / dsl::op<T<7>>(LIT(";")); using operand = Asg; };
    using operation = Lst;
    static constexpr auto value = Val{};
};
RUN(list, E2, 8, "x,;=<", 2, 256, false, {'M', ",", 1, 0, 1}, {'M', ";", 1, 0, 7, 0, 0, 1}, {'R', "=", 2, 0, 2}, {'S', "<", 3, 0, 3}, {'S', "<<", 3, 0, 6, 0, 0, 3})
// the other way round: lists and single above right; prefix and postfix at the bottom
struct E3 : lexy::expression_production
{
    static constexpr auto atom = dsl::capture(LIT("x"));
    OP(Lst, infix_op_list, 1, LIT(","), dsl::atom);
    OP(Sng, infix_op_single, 2, LIT("="), Lst);
    OP(Rgt, infix_op_right, 3, LIT("^"), Sng);
    OP(Pre, prefix_op, 4, LIT("-"), Rgt);
    OP(Pst, postfix_op, 5, LIT("!"), Pre);
    using operation = Pst;
    static constexpr auto value = Val{};
};
#define E3OPS {'M', ",", 5, 0, 1}, {'S', "=", 4, 0, 2}, {'R', "^", 3, 0, 3}, {'P', "-", 2, 0, 4}, {'Q', "!", 1, 0, 5}
RUN(inverse, E3, 7, "x,=^-!", 3, 256, false, E3OPS)
// subexpressions start at their operation
struct S1 : lexy::subexpression_production<E3, E3::Pre> {};
struct S2 : lexy::subexpression_production<E3, E3::Rgt> {};
struct S3 : lexy::subexpression_production<E3, E3::Sng> {};
struct S4 : lexy::subexpression_production<E3, E3::Lst> {};
RUN(sub_prefix, S1, 6, "x,=^-!", 5, 256, false, E3OPS)
RUN(sub_right, S2, 6, "x,=^-!", 7, 256, false, E3OPS)
RUN(sub_single, S3, 6, "x,=^-!", 8, 256, false, E3OPS)
RUN(sub_list, S4, 6, "x,=^-!", 10, 256, false, E3OPS)
// one operator in two roles; prefix below infix
struct E4 : lexy::expression_production
{
    static constexpr auto atom = dsl::capture(LIT("x"));
    OP(Pow, infix_op_right, 1, LIT("**"), dsl::atom);
    OP(Neg, prefix_op, 2, LIT("-"), Pow);
    OP(Mul, infix_op_left, 3, dsl::not_followed_by(LIT("*"), LIT("*")), Neg);
    OP(Sub, infix_op_left, 4, LIT("-"), Mul);
    OP(Not, prefix_op, 5, LIT("~"), Sub);
    using operation = Not;
    static constexpr auto value = Val{};
};
RUN(roles, E4, 7, "x*-~", 3, 256, false, {'R', "**", 5, 0, 1}, {'P', "-", 4, 0, 2}, {'L', "*", 3, 0, 3, 0, '*'}, {'L', "-", 2, 0, 4}, {'P', "~", 1, 0, 5})
// groups at the root and nested ones
struct E5 : lexy::expression_production
{
    static constexpr auto atom = ATOM(E5);
    OP(Mul, infix_op_left, 1, LIT("*"), dsl::atom);
    OP(Add, infix_op_left, 2, LIT("+"), Mul);
    OP(Bar, infix_op_left, 3, LIT("|"), dsl::atom);
    OP(Com, prefix_op, 4, LIT("~"), Bar);
    using operation = dsl::groups<Add, Com>;
    static constexpr auto value = Val{};
};
RUN(groups, E5, 6, "x*+|~()", 0, 256, false, {'L', "*", 2, 1, 1}, {'L', "+", 1, 1, 2}, {'L', "|", 2, 2, 3}, {'P', "~", 1, 2, 4})
struct E6 : lexy::expression_production
{
    static constexpr auto atom = dsl::capture(LIT("x"));
    OP(A, infix_op_left, 1, LIT("a"), dsl::atom);
    OP(B, infix_op_right, 2, LIT("b"), dsl::atom);
    OP(C, infix_op_list, 3, LIT("c"), dsl::atom);
    using BC = dsl::groups<B, C>;
    OP(D, infix_op_left, 4, LIT("d"), BC);
    using AD = dsl::groups<A, D>;
    OP(R, infix_op_left, 5, LIT("r"), AD);
    using operation = R;
    static constexpr auto value = Val{};
};
RUN(nested_groups, E6, 8, "xabcdr", 2, 256, false, {'L', "a", 2, 1, 1}, {'R', "b", 3, 3, 2}, {'M', "c", 3, 4, 3}, {'L', "d", 2, 2, 4}, {'L', "r", 1, 0, 5})
// parentheses start afresh
struct E7 : lexy::expression_production
{
    static constexpr auto max_operator_nesting = 2;
    static constexpr auto atom = ATOM(E7);
    OP(Neg, prefix_op, 1, LIT("-"), dsl::atom);
    OP(Cmp, infix_op_single, 2, LIT("<"), Neg);
    OP(Lst, infix_op_list, 3, LIT(","), Cmp);
    using operation = Lst;
    static constexpr auto value = Val{};
};
RUN(limit, E7, 6, "x-<,()", 2, 2, false, {'P', "-", 3, 0, 1}, {'S', "<", 2, 0, 2}, {'M', ",", 1, 0, 3})
// operators with operands of their own, whitespace
struct E8 : lexy::expression_production
{
    static constexpr auto whitespace = LIT(" ");
    static constexpr auto atom = dsl::capture(LIT("x"));
    OP(Idx, postfix_op, 1, LIT("[") >> dsl::recurse<struct E8> + LIT("]"), dsl::atom);
    OP(Neg, prefix_op, 2, LIT("-"), Idx);
    OP(Cnd, infix_op_right, 3, LIT("?") >> dsl::recurse<struct E8> + LIT(":"), Neg);
    using operation = Cnd;
    static constexpr auto value = Val{};
};
RUN(extra, E8, 7, "x[]?:-", 3, 256, false, {'Q', "[", 3, 0, 1, ']'}, {'P', "-", 2, 0, 2}, {'R', "?", 1, 0, 3, ':'})
RUN(space, E8, 6, "x[]?: ", 3, 256, true, {'Q', "[", 3, 0, 1, ']'}, {'P', "-", 2, 0, 2}, {'R', "?", 1, 0, 3, ':'})
// what an operator passes on: its tag (own type, position, state, constant, none) and the values of its rule
struct St { int v = 7; };
struct ST { int v, off; ST(St& s, const char* p) : v(s.v), off(at(p)) {} };
struct Plain { int v = 9; };
constexpr auto plus = dsl::op(LIT("+"));
constexpr auto many = dsl::op<T<1>>(LIT("a")) / dsl::op<ST>(LIT("b")) / (dsl::op<5>(LIT("c")) / dsl::op<void>(LIT("d"))) / dsl::op<Plain>(LIT("e") >> dsl::capture(LIT("!"))) / dsl::op<T<1>>(LIT("f"));
struct Got { int kind = 0, v = 0, off = 0, extra = -1, l = -1, r = -1; };
struct TVal
{
    using return_type = Got;
    static Got mk(T<1> t) { return {1, 0, t.off}; }
    static Got mk(ST t) { return {2, t.v, t.off}; }
    static Got mk(int v) { return {3, v, 0}; }
    static Got mk() { return {4, 0, 0}; }
    template <typename R> static Got mk(Plain t, lexy::lexeme<R> x) { return {5, t.v, 0, at(x.begin())}; }
    static Got mk(lexy::op<plus>) { return {6, 0, 0}; }
    template <typename R> Got operator()(lexy::lexeme<R> x) const { return {0, 0, at(x.begin())}; }
    template <typename... A> requires(!(std::is_same_v<A, Got> || ...)) Got operator()(A... a) const { return mk(a...); }
    template <typename... A> Got operator()(Got l, A... a) const
    {
        return apply(l, [](auto... b) { return mk(b...); }, a...);
    }
    template <typename F> static Got apply(Got l, F f, Got r) { auto g = f(); g.l = l.off; g.r = r.off; return g; }
    template <typename F, typename A> static Got apply(Got l, F f, A a, Got r) { auto g = f(a); g.l = l.off; g.r = r.off; return g; }
    template <typename F, typename A, typename B> static Got apply(Got l, F f, A a, B b, Got r) { auto g = f(a, b); g.l = l.off; g.r = r.off; return g; }
};
struct TE : lexy::expression_production
{
    static constexpr auto atom = dsl::capture(LIT("x"));
    struct In : dsl::infix_op_single { static constexpr int tag = 1; static constexpr auto op = many / plus; using operand = dsl::atom; };
    using operation = In;
    static constexpr auto value = TVal{};
};
struct TB { static constexpr auto rule = many | dsl::else_ >> LIT("+"); static constexpr auto value = TVal{}; };
struct TP { static constexpr auto rule = many; static constexpr auto value = TVal{}; };
struct TO { static constexpr auto rule = plus | dsl::op<ST>(LIT("b")) | dsl::op<T<1>>(LIT("a")) | dsl::op<5>(LIT("c")) | dsl::op<void>(LIT("d")) | dsl::op<Plain>(LIT("e") >> dsl::capture(LIT("!"))); static constexpr auto value = TVal{}; };
struct TQ { static constexpr auto rule = LIT("z") >> dsl::op<ST>(LIT("b")) | LIT("y") >> dsl::op<T<1>>(LIT("a")); static constexpr auto value = TVal{}; };
struct TH
{
    Got* out;
    struct event_handler
    {
        event_handler(lexy::production_info) {}
        template <typename E, typename... A> int on(TH&, E, A&&...) { return 0; }
    };
    template <typename P, typename S> using value_callback = lexy::production_value_callback<P, S>;
    template <typename R, typename X> R get_result(bool, X&& v) && { *out = v; return {}; }
    template <typename R> R get_result(bool) && { return {}; }
};
template <typename X> struct Top { static constexpr auto rule = dsl::p<X>; static constexpr auto value = lexy::forward<Got>; };
template <typename Prod> inline void tags(int start, bool expr, const char* ops)
{
    vp_cover_decl("value");
    int n = start + (expr ? 3 : 2);
    vp_retain(n + 2); vp_maxlen(n); vp_exact(); vp_depth(300);
    base = static_cast<const char*>(vp_tape(1, -1, 0));
    lexy::string_input<lexy::default_encoding> input(base, static_cast<const char*>(vp_tape_end()));
    auto reader = input.reader();
    Got  got{-1};
    St   st;
    lexy::do_action<Top<Prod>, NoRes>(TH{&got}, &st, reader);
    if (got.kind < 0) return;
    if (expr && got.kind == 0) return;
    Cu c{base + start};
    if (expr) CHECK(got.l == 0, "left operand");
    char op = 0;
    int  o  = at(c.p);
    for (auto p = ops; *p; ++p) if (c.eat(static_cast<unsigned char>(*p))) { op = *p; break; }
    switch (op)
    {
    case 'f': case 'a': CHECK(got.kind == 1 && got.off == o, "operator tag is not made from the position of the operator"); break;
    case 'b': CHECK(got.kind == 2 && got.v == 7 && got.off == o, "operator tag is not made from the parse state and the position of the operator"); break;
    case 'c': CHECK(got.kind == 3 && got.v == 5, "operator passes another constant"); break;
    case 'd': CHECK(got.kind == 4, "operator without tag passes a value"); break;
    case 'e':
        if (!c.eat('!')) return; // recovered
        CHECK(got.kind == 5 && got.v == 9 && got.extra == o + 1, "values after the operator are not passed on"); break;
    case '+': CHECK(got.kind == (std::is_same_v<Prod, TB> ? 4 : 6), "operator without explicit tag passes another type"); break;
    default: CHECK(false, "value without operator");
    }
    if (expr) { if (!c.is('x')) return; CHECK(got.r == at(c.p), "right operand"); }
    vp_cover("value");
}
WITNESS(tag_expr) { tags<TE>(1, true, "abcdef+"); }
WITNESS(tag_branch) { tags<TB>(0, false, "abcdef+"); }
WITNESS(tag_parse) { tags<TP>(0, false, "abcdef"); }
WITNESS(tag_single) { tags<TO>(0, false, "abcde+"); }
WITNESS(tag_after) { tags<TQ>(1, false, "ab"); }
} // namespace
