// Nondeterministic probe rules: branches that may match or not and may fail after matching, whatever the input. What the
// combinators do with them is recorded and compared with a reference that replays the decisions in the documented order.
#pragma once
#include "gen.hpp"
#include <lexy/callback.hpp>
namespace nd
{
struct Item { int id; };
enum Kind { Try, Fin, Par };
struct Rec
{
    struct E { int kind, id, ok; } ev[40];
    int         n = 0;
    int         vals[40];
    int         nv = 0;
    int         budget = 6; // decisions that may succeed
    vp::Log*    log = nullptr;
    void        add(int kind, int id, int ok) { if (n < 40) ev[n++] = {kind, id, ok}; }
    void        val(int v) { if (nv < 40) vals[nv++] = v; }
};
inline Rec* rec;
inline bool pick() { return vp_choice(2) != 0; }

// Consumes one code unit, unless it decides to fail.
template <int Id>
struct Nd : lexyd::branch_base
{
    template <typename NextParser, typename Context, typename Reader, typename... Args>
    static bool consume(int kind, Context& context, Reader& reader, Args&&... args)
    {
        auto pos = reader.position();
        VP_CHECK("C05", vp::P(pos) == rec->log->tok_end || rec->log->rec > 0, "a rule starts at another position than where the previous token ended");
        if (reader.peek() == Reader::encoding::eof() || !pick())
        {
            rec->add(kind, Id, 0);
            context.on(lexy::parse_events::error{}, lexy::error<Reader, tag>(pos));
            return false;
        }
        rec->add(kind, Id, 1);
        reader.bump();
        context.on(lexy::parse_events::token{}, lexy::any_token_kind, pos, reader.position());
        return NextParser::parse(context, reader, static_cast<Args&&>(args)..., Item{Id});
    }
    template <typename Reader>
    struct bp
    {
        typename Reader::iterator pos{};
        int                       state = 0; // 0 untried, 1 matched, 2 did not match
        template <typename ControlBlock>
        bool try_parse(const ControlBlock*, const Reader& reader)
        {
            pos = reader.position();
            VP_CHECK("C05", vp::P(pos) == rec->log->tok_end || rec->log->rec > 0, "a branch is tried at another position than where the previous token ended");
            bool ok = !vp_at_end(pos) && pick();
            state   = ok ? 1 : 2;
            rec->add(Try, Id, ok);
            return ok;
        }
        template <typename Context>
        void cancel(Context&)
        {
            VP_CHECK("C05", state != 1, "a branch that matched is cancelled");
        }
        template <typename NextParser, typename Context, typename... Args>
        bool finish(Context& context, Reader& reader, Args&&... args)
        {
            VP_CHECK("C05", state == 1, "a branch that did not match is taken");
            VP_CHECK("C05", vp::P(reader.position()) == vp::P(pos), "a branch is taken at another position than where it matched");
            state = 0;
            return consume<NextParser>(Fin, context, reader, static_cast<Args&&>(args)...);
        }
    };
    template <typename NextParser>
    struct p
    {
        template <typename Context, typename Reader, typename... Args>
        static bool parse(Context& context, Reader& reader, Args&&... args)
        {
            return consume<NextParser>(Par, context, reader, static_cast<Args&&>(args)...);
        }
    };
};
inline int idof(Item i) { return i.id; }
inline int idof(lexy::nullopt) { return 70; }
template <typename T> inline int idof(const T&) { return 71; }

struct Sink
{
    using return_type = Item;
    int done = 0;
    template <typename... Args>
    void operator()(Args&&... args)
    {
        VP_CHECK("C19", !done, "sink used after it was finished");
        rec->val(80);
        (rec->val(idof(args)), ...);
    }
    Item finish() &&
    {
        VP_CHECK("C19", !done, "sink finished twice");
        done = 1;
        rec->val(50);
        return Item{50};
    }
};
struct Handler : vp::Handler
{
    using vp::Handler::Handler;
    template <typename Production, typename State>
    struct value_callback
    {
        using return_type = Item;
        value_callback() = default;
        explicit value_callback(State*) {}
        auto sink() const { return Sink{}; }
        template <typename... Args>
        Item operator()(Args&&... args) const
        {
            rec->val(60);
            (rec->val(idof(args)), ...);
            return Item{60};
        }
    };
};
// The replay: what the documentation says happens, given the decisions.
struct Replay
{
    int  at = 0, errors = 0;
    bool anyval = false; // the documentation leaves the values open
    int  vals[40];
    int  nv = 0;
    void val(int v) { if (nv < 40) vals[nv++] = v; }
    int next(int kind, int id)
    {
        VP_CHECK("C05", at < rec->n, "an alternative or item is not tried where the documentation has it tried");
        VP_CHECK("C05", rec->ev[at].kind == kind && rec->ev[at].id == id, "alternatives or items are not tried in the documented order");
        int ok = rec->ev[at++].ok;
        return ok;
    }
    // a branch: 0 not taken, 1 taken, 2 taken and failed
    int branch(int id)
    {
        if (!next(Try, id)) return 0;
        int ok = next(Fin, id);
        if (!ok) ++errors;
        return ok ? 1 : 2;
    }
    bool parse(int id)
    {
        int ok = next(Par, id);
        if (!ok) ++errors;
        return ok;
    }
    bool fail() { ++errors; return false; }
};
template <typename Prod, typename F>
inline void check(int len, F f)
{
    vp_retain(len + 2); vp_maxlen(len); vp_exact();
    vp_tape(1, -1, 0);
    vp_tape_domain('x', 'x'); // what the input contains does not matter to the probes
    vp_cover_decl("success");
    vp_cover_decl("failure");
    auto    input = vp::tape_input<lexy::default_encoding>();
    vp::Log log;
    Rec     r;
    r.log       = &log;
    rec         = &r;
    auto reader = input.reader();
    bool ok     = lexy::do_action<Prod, vp::Result>(Handler(&log), lexy::no_parse_state, reader).ok;
    Replay q;
    bool   want = f(q);
    VP_CHECK("C05", q.at == r.n, "more alternatives or items are tried than documented");
    VP_CHECK("C05", ok == want, ok ? "succeeds where it is documented to fail" : "fails where it is documented to succeed");
    VP_CHECK("C06", int(log.errors) == (q.errors > 2 ? 2 : q.errors), "another number of errors than documented");
    if (want && !q.anyval)
    {
        VP_CHECK("C19", q.nv == r.nv, "another number of values than documented");
        for (int i = 0; i < q.nv && i < r.nv; ++i) VP_CHECK("C19", q.vals[i] == r.vals[i], "values in another order than documented");
    }
    if (want) vp_cover("success");
    else vp_cover("failure");
}
} // namespace nd
#define ND(name, len, rule_, ...) struct p_##name { static constexpr auto rule = rule_; }; WITNESS(name) { nd::check<p_##name>(len, [](nd::Replay& q) -> bool { __VA_ARGS__ }); }
