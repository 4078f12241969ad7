// parse_as_tree: the tree is what the events describe, and its tokens are the input.
#include "acc.hpp"
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#define CHECK(c, m) VP_CHECK("C15", c, m)
#define RES_MAX 10
#include "res.hpp"
namespace
{
namespace dsl = lexy::dsl;
using vp::P;
constexpr int MAXI = 80;
struct Item { int ev; const void* id; int kind; const void *b, *e; }; // ev: 0 enter, 1 exit, 2 leaf
struct TLog
{
    Item it[MAXI];
    int  n = 0;
    bool done = false;
    const void* last = nullptr;
    void add(Item x) { if (n == MAXI) vp_imprecise(); it[n++] = x; }
    void insert(int i, Item x) { add(x); for (int k = n - 1; k > i; --k) it[k] = it[k - 1]; it[i] = x; }
};
struct THandler
{
    TLog* log;
    int   depth = 0;
    struct event_handler
    {
        const void* id; bool transparent;
        int start = 0; const void* begin = nullptr;
        event_handler(lexy::production_info i) : id(i.id), transparent(i.is_transparent) {}
        template <typename It> void on(THandler&, lexy::parse_events::grammar_start, It) {}
        template <typename R> void on(THandler& h, lexy::parse_events::grammar_finish, R& r) { h.log->done = true; h.log->last = P(r.position()); }
        template <typename R> void on(THandler& h, lexy::parse_events::grammar_cancel, R&) { h.log->n = 0; }
        template <typename It> void on(THandler& h, lexy::parse_events::production_start, It pos)
        {
            start = h.log->n; begin = P(pos); ++h.depth;
            if (!transparent) h.log->add({0, id, 0, nullptr, nullptr});
        }
        template <typename It> void on(THandler& h, lexy::parse_events::production_finish, It)
        {
            --h.depth;
            if (transparent) return;
            h.log->add({1, id, 0, nullptr, nullptr});
        }
        template <typename It> void on(THandler& h, lexy::parse_events::production_cancel, It pos)
        {
            --h.depth;
            h.log->n = start;
            if (h.depth) tok(h, lexy::error_token_kind, begin, P(pos));
        }
        template <typename It> int on(THandler& h, lexy::parse_events::operation_chain_start, It) { if (chains == 8) vp_imprecise(); chain[chains++] = h.log->n; return 0; }
        int chain[8], chains = 0;
        template <typename Op, typename It> void on(THandler& h, lexy::parse_events::operation_chain_op, Op op, It)
        {
            lexy::production_info i(op);
            if (i.is_transparent) return;
            h.log->insert(chain[chains - 1], {0, i.id, 0, nullptr, nullptr});
            h.log->add({1, i.id, 0, nullptr, nullptr});
        }
        template <typename It> void on(THandler&, lexy::parse_events::operation_chain_finish, int, It) { --chains; }
        void tok(THandler& h, int k, const void* b, const void* e)
        {
            if (k == lexy::error_token_kind && b == e) return;
            if (k == lexy::position_token_kind) return; // added where a production would be empty, not compared
            auto& l = *h.log;
            if (k == lexy::error_token_kind && l.n && l.it[l.n - 1].ev == 2 && l.it[l.n - 1].kind == k) l.it[l.n - 1].e = e;
            else l.add({2, nullptr, k, b, e});
        }
        template <typename Kind, typename It> void on(THandler& h, lexy::parse_events::token, Kind k, It b, It e)
        {
            lexy::token_kind<void> tk(k);
            if (P(b) == P(e) && tk.ignore_if_empty()) return;
            tok(h, lexy::token_kind<void>::to_raw(tk), P(b), P(e));
        }
        template <typename E, typename... A> auto on(THandler&, E, A&&...) { return 0; }
    };
    template <typename, typename> using value_callback = lexy::_detail::void_value_callback;
    template <typename T> T get_result(bool) && { return {}; }
};
struct Nothing {};
template <typename> using NoRes = Nothing;
template <typename Prod, typename Input> inline void tree(Input input)
{
    vp_cover_decl("tree");
    Heap heap; Res r{&heap, 1};
    auto first = P(input.reader().position());
    {
        lexy::parse_tree_for<Input, void, Res> t(&r);
        lexy::parse_as_tree<Prod>(t, input, lexy::noop);
        TLog log;
        auto reader = input.reader();
        lexy::do_action<Prod, NoRes>(THandler{&log}, lexy::no_parse_state, reader);
        CHECK(t.empty() == !log.done, "tree although the parse failed, or none although it succeeded");
        if (t.empty()) vp_cover("none");
        else
        {
            vp_cover("tree");
            auto rg = t.traverse();
            int i = 0, sz = 0, d = 0, maxd = 0;
            auto at = first;
            for (auto [ev, node] : rg)
            {
                if (ev == lexy::traverse_event::leaf && node.kind() == lexy::position_token_kind)
                {
                    auto l = node.lexeme();
                    CHECK(P(l.begin()) == at && P(l.end()) == at, "position token is not empty or not where the production is");
                    ++sz;
                    if (d > maxd) maxd = d;
                    continue;
                }
                CHECK(i < log.n, "tree has more nodes than were parsed");
                const Item& x = log.it[i++];
                CHECK(int(ev == lexy::traverse_event::enter ? 0 : ev == lexy::traverse_event::exit ? 1 : 2) == x.ev, "tree has another structure than what was parsed");
                if (x.ev == 2)
                {
                    auto tk = node.token();
                    CHECK(lexy::token_kind<void>::to_raw(tk.kind()) == x.kind, "token has another kind than what was parsed");
                    CHECK(P(tk.lexeme().begin()) == x.b && P(tk.lexeme().end()) == x.e, "token covers another range than what was parsed");
                    VP_CHECK("C04", P(tk.lexeme().begin()) == at, "tokens of the tree do not tile the input");
                    at = P(tk.lexeme().end());
                    ++sz;
                    if (d > maxd) maxd = d;
                }
                else if (x.ev == 0)
                {
                    CHECK(node.kind().is_production(), "production is not a production");
                    ++sz;
                    if (d > maxd) maxd = d;
                    ++d;
                }
                else
                {
                    CHECK(d == 1 || !node.children().empty(), "production without children");
                    --d;
                }
            }
            CHECK(i == log.n, "tree has fewer nodes than were parsed");
            CHECK(t.size() == std::size_t(sz), "wrong size");
            CHECK(t.depth() == std::size_t(maxd), "wrong depth");
            VP_CHECK("C04", P(t.remaining_input().begin()) == at, "remaining input does not start after the last token");
            VP_CHECK("C04", vp_at_end(t.remaining_input().end()), "remaining input does not extend to the end");
        }
    }
    CHECK(heap.live == 0, "memory is not given back");
}
//=== grammars ===//
struct A1 { static constexpr auto rule = LEXY_LIT("a"); };
struct AB { static constexpr auto rule = LEXY_LIT("a") >> (LEXY_LIT("b") + dsl::p<A1>); };
struct TAB : lexy::transparent_production { static constexpr auto rule = LEXY_LIT("a") >> (dsl::p<A1> + LEXY_LIT("b")); };
struct TT : lexy::transparent_production { static constexpr auto rule = dsl::p<TAB>; };
struct Opt { static constexpr auto rule = dsl::opt(LEXY_LIT("a")); };
struct Tok : lexy::token_production { static constexpr auto rule = LEXY_LIT("a") >> LEXY_LIT("b"); };
struct G1 { static constexpr auto rule = dsl::list(dsl::try_(dsl::p<AB>, dsl::until(LEXY_LIT(";")))); };
struct G2 { static constexpr auto rule = dsl::list(dsl::try_(dsl::p<TAB>, dsl::until(LEXY_LIT(";")))); };
struct G3 { static constexpr auto rule = dsl::try_(dsl::p<TT>) + dsl::p<Opt> + dsl::try_(LEXY_LIT("c")) + dsl::p<Opt>; };
struct G4 { static constexpr auto whitespace = dsl::ascii::blank; static constexpr auto rule = dsl::p<Tok> + dsl::square_bracketed.opt_list(dsl::p<AB>, dsl::sep(dsl::comma)) + dsl::p<Opt>; };
struct G5 { static constexpr auto rule = dsl::p<AB> | dsl::else_ >> dsl::p<Opt>; };
struct Sec : lexy::transparent_production { static constexpr auto rule = LEXY_LIT("a") >> dsl::round_bracketed.list(dsl::p<TAB>); };
struct G6 { static constexpr auto rule = dsl::list(dsl::try_(dsl::p<Sec>)); };
struct Ex : lexy::expression_production
{
    static constexpr auto atom = dsl::p<A1>;
    struct Pre : dsl::prefix_op { static constexpr auto op = dsl::op(LEXY_LIT("-")); using operand = dsl::atom; };
    struct Mul : dsl::infix_op_left { static constexpr auto op = dsl::op(LEXY_LIT("*")); using operand = Pre; };
    struct Pow : dsl::infix_op_right { static constexpr auto op = dsl::op(LEXY_LIT("^")); using operand = Mul; };
    struct Lst : dsl::infix_op_list { static constexpr auto op = dsl::op(LEXY_LIT(",")); using operand = Pow; };
    struct Pst : dsl::postfix_op { static constexpr auto op = dsl::op(LEXY_LIT("!")); using operand = Lst; };
    using operation = Pst;
};
struct Ex2 : lexy::expression_production, lexy::transparent_production
{
    static constexpr auto atom = dsl::opt(dsl::peek(LEXY_LIT("a")) >> dsl::p<TAB>) ;
    struct Add : dsl::infix_op_left, lexy::transparent_production { static constexpr auto op = dsl::op(LEXY_LIT("+")); using operand = dsl::atom; };
    struct Sub : dsl::infix_op_single { static constexpr auto op = dsl::op(LEXY_LIT("-")); using operand = Add; };
    using operation = Sub;
};
struct G7 { static constexpr auto rule = dsl::p<Ex>; };
struct G8 { static constexpr auto rule = dsl::p<Opt> + dsl::try_(dsl::p<Ex>); };
struct G9 { static constexpr auto rule = dsl::try_(dsl::p<Ex2>) + dsl::try_(dsl::p<Ex2>); };
struct G10 { static constexpr auto rule = dsl::p<Ex2> + dsl::p<Ex2> + dsl::eof; };
struct Kw { static constexpr auto rule = dsl::position + dsl::opt(dsl::identifier(dsl::ascii::alpha)) + dsl::capture(dsl::token(dsl::while_(LEXY_LIT("-")))); };
} // namespace
#define G(g, n) WITNESS(g) { auto b = static_cast<const char*>(vp_tape(1, -1, 0)); vp_tape_domain(0, 127); vp_retain(n + 2); vp_maxlen(n); vp_exact(); vp_depth(200); tree<g>(lexy::string_input<lexy::ascii_encoding>(b, static_cast<const char*>(vp_tape_end()))); }
G(G1, 7) G(G2, 7) G(G3, 6) G(G4, 7) G(G5, 5) G(G6, 6) G(G7, 6) G(G8, 6) G(G9, 5) G(G10, 5)
struct GK { static constexpr auto rule = dsl::p<Kw> + dsl::p<Kw>; };
G(GK, 5)
