// Manual scanning: for every sequence of scanner operations up to the bound and every input up to the bound, the
// scanner's state, position, values and errors are those of the rules it was told to parse.
#include "acc.hpp"
#include <lexy/action/parse.hpp>
#include <lexy/action/scan.hpp>
#include <lexy/dsl.hpp>
#define K(cond, msg) VP_CHECK("C27", cond, msg)
namespace
{
constexpr auto A = lexy::dsl::lit_c<'a'>;
constexpr auto B = lexy::dsl::lit_c<'b'>;
constexpr auto AB = LEXY_LIT("ab");
struct my_tag { static constexpr auto name = "my"; };
struct inner { static constexpr auto rule = A + lexy::dsl::position + B; static constexpr auto value = lexy::callback<const char*>([](const char* p) { return p; }); };
struct bproduction { static constexpr auto rule = A >> lexy::dsl::position + B; static constexpr auto value = lexy::callback<const char*>([](const char* p) { return p; }); };
// recoverable production: reports an error and goes on
struct rec { static constexpr auto rule = lexy::dsl::try_(B, lexy::dsl::nullopt); static constexpr auto value = lexy::callback<int>([] { return 1; }, [](lexy::nullopt) { return 2; }); };

enum { NORMAL, FAILED, RECOVERY };
struct Model
{
    ref::Ch q;
    int     state = NORMAL;
    int     errs = 0;
    const char* last = nullptr; // position of the last error
    void err(const char* p) { ++errs; last = p; }
};
struct Errors
{
    int n = 0;
    const char* last = nullptr;
};
// an error callback that records into the object it was made with
struct Record
{
    Errors* e;
    struct Sink
    {
        Errors* e;
        std::size_t count = 0;
        using return_type = std::size_t;
        template <typename Ctx, typename Error>
        void operator()(const Ctx&, const Error& err) { ++count; ++e->n; e->last = vp::P(err.position()); }
        std::size_t finish() && { return count; }
    };
    Sink sink() const { return {e, 0}; }
};
// one operation, on the scanner and on the model
template <typename S>
void check(S& s, Model& m, Errors& e)
{
    K(bool(s) == (m.state == NORMAL), "the scanner is in another state than documented");
    K(vp::P(s.position()) == vp::P(m.q.p), "the scanner is at another position than documented");
    K(s.is_at_eof() == m.q.end(), "the scanner reports the end elsewhere");
    K(e.n == m.errs, "the scanner reports another number of errors than the rules");
    if (m.errs) K(e.last == vp::P(m.last), "the scanner reports an error at another position");
    K(vp::P(s.remaining_input().reader().position()) == vp::P(m.q.p), "the remaining input starts elsewhere");
}
template <typename S>
void op(S& s, Model& m, Errors& e, int kind)
{
    auto live = m.state != FAILED;
    auto beg = m.q.p;
    switch (kind)
    {
    case 0: // a rule without a value
        s.parse(AB);
        if (live && !m.q.lit("ab"))
        {
            m.err(m.q.p);
            m.state = FAILED;
            m.q.eat('a'); // the literal consumes what matches
        }
        break;
    case 1: // a production
    {
        auto r = s.template parse<inner>();
        bool ok = false;
        if (live)
        {
            if (!m.q.eat('a')) m.err(m.q.p);
            else if (!m.q.eat('b')) m.err(m.q.p);
            else ok = true;
            if (!ok) m.state = FAILED;
        }
        K(r.has_value() == ok && bool(r) == ok, "a production has a value although it failed, or none although it succeeded");
        if (ok) K(r.value() == beg + 1, "a production has another value");
        K(r.value_or(nullptr) == (ok ? beg + 1 : nullptr), "value_or() does not tell a value from none");
        break;
    }
    case 2: // a branch without a value
    {
        bool b = s.branch(A >> B);
        bool want = false;
        if (live && m.q.eat('a'))
        {
            want = true;
            if (!m.q.eat('b')) { m.err(m.q.p); m.state = FAILED; }
        }
        K(b == want, "branch() does not tell whether the branch was taken");
        break;
    }
    case 3: // a branch production
    {
        lexy::scan_result<const char*> r;
        bool b = s.template branch<bproduction>(r);
        bool want = false, ok = false;
        if (live && m.q.eat('a'))
        {
            want = true;
            ok = m.q.eat('b');
            if (!ok) { m.err(m.q.p); m.state = FAILED; }
        }
        K(b == want, "branch() does not tell whether the production's branch was taken");
        K(r.has_value() == ok, "a branch has a value although it failed, or none although it succeeded");
        if (ok) K(r.value() == beg + 1, "a branch has another value");
        break;
    }
    case 4:
        K(s.peek(AB) == (live && ref::Ch(m.q).lit("ab")), "peek() does not tell whether the rule matches");
        break;
    case 5:
    {
        bool want = false;
        if (live) { want = m.q.lit("ab"); }
        K(s.discard(AB) == want, "discard() does not tell whether the token matched");
        break;
    }
    case 6:
        s.error(my_tag{}, s.position());
        m.err(m.q.p);
        break;
    case 7:
        s.fatal_error("message", s.position(), s.position());
        m.err(m.q.p); m.state = FAILED;
        break;
    case 8:
    {
        auto r = s.capture(AB);
        bool ok = live && m.q.lit("ab");
        if (live && !ok) { m.err(m.q.p); m.state = FAILED; m.q.eat('a'); }
        K(r.has_value() == ok, "a capture has a value although it failed, or none although it succeeded");
        if (ok) K(vp::P(r.value().begin()) == vp::P(beg) && vp::P(r.value().end()) == vp::P(m.q.p), "a capture has another lexeme");
        break;
    }
    case 9:
    {
        auto r = s.template integer<int>(lexy::dsl::digits<>);
        long v = 0; bool ok = false;
        if (live)
        {
            while (!m.q.end() && m.q.in('0', '9')) { ok = true; v = v * 10 + long(m.q.peek() - '0'); ++m.q.p; }
            if (!ok) { m.err(m.q.p); m.state = FAILED; }
        }
        K(r.has_value() == ok, "an integer has a value although it failed, or none although it succeeded");
        if (ok) K(vp_split(r.value() == v), "an integer has another value");
        break;
    }
    case 10: // a production that recovers
    {
        lexy::scan_result<int> r;
        s.parse(r, lexy::dsl::p<rec>);
        bool b = false;
        if (live) { b = m.q.eat('b'); if (!b) m.err(m.q.p); }
        K(r.has_value() == live, "a production that recovered is taken for a failure");
        if (live) K(r.value() == (b ? 1 : 2), "a production that recovered has another value");
        break;
    }
    case 11: // recovery
        if (m.state != FAILED) return; // must not be called
        {
            auto g = s.error_recovery();
            m.state = RECOVERY;
            check(s, m, e);
            int inner_op = vp_choice(4);
            if (inner_op < 3) op(s, m, e, inner_op == 0 ? 5 : inner_op == 1 ? 2 : 8);
            check(s, m, e);
            if (vp_choice(2)) { static_cast<decltype(g)&&>(g).finish(); m.state = NORMAL; }
            else { static_cast<decltype(g)&&>(g).cancel(); m.state = FAILED; }
        }
        break;
    }
}
constexpr int OPS = 12;
void begin(int n)
{
    n += vp::MORE;
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    vp_tape(1, -1, 0);
    vp_tape_domain('a', 'c'); vp_tape_domain_add('0', '1');
}
template <typename S>
void program(S& s, Model& m, Errors& e, int len)
{
    check(s, m, e);
    for (int i = 0; i < len; ++i)
    {
        op(s, m, e, vp_choice(OPS));
        check(s, m, e);
    }
}
template <typename S>
void finish(S& s, Model& m)
{
    auto r = static_cast<S&&>(s).finish();
    K(r.is_success() == (m.state == NORMAL && m.errs == 0), "finish() does not tell success");
    K(r.is_recovered_error() == (m.state == NORMAL && m.errs > 0), "finish() does not tell a recovered error");
    K(r.is_fatal_error() == (m.state != NORMAL), "finish() does not tell a fatal error");
    K(int(r.error_count()) == m.errs, "finish() counts other errors");
    vp_cover("finish");
}
} // namespace
WITNESS(scan3)
{
    begin(4);
    auto input = vp::tape_input<lexy::default_encoding>();
    Errors e; Record cb{&e};
    vp_cover_decl("finish");
    auto s = lexy::scan(input, cb);
    Model m{{input.reader().position()}};
    program(s, m, e, 3 + vp::MORE);
    finish(s, m);
}
// every operation after a failure and after a recovery
WITNESS(scan_failed)
{
    begin(2);
    auto input = vp::tape_input<lexy::default_encoding>();
    Errors e; Record cb{&e};
    vp_cover_decl("finish");
    auto s = lexy::scan(input, cb);
    Model m{{input.reader().position()}};
    op(s, m, e, vp_choice(2) ? 7 : 8);
    check(s, m, e);
    op(s, m, e, 11);
    check(s, m, e);
    program(s, m, e, 1);
    finish(s, m);
}
// state and control production
struct control { static constexpr auto whitespace = lexy::dsl::lit_c<'c'>; static constexpr auto max_recursion_depth = 2; };
struct st { int x; };
WITNESS(scan_state)
{
    begin(4);
    auto input = vp::tape_input<lexy::default_encoding>();
    Errors e; Record cb{&e};
    vp_cover_decl("finish");
    st state{7};
    auto s = lexy::scan<control>(input, state, cb);
    K(&s.parse_state() == &state, "the scanner has another parse state");
    Model m{{input.reader().position()}};
    s.parse(A);
    if (!m.q.eat('a')) { m.err(m.q.p); m.state = FAILED; }
    else while (m.q.eat('c')) {}
    check(s, m, e);
    bool b = s.branch(B), want = false;
    if (m.state == NORMAL && m.q.eat('b')) { want = true; while (m.q.eat('c')) {} }
    K(b == want, "branch() does not tell whether the branch was taken");
    check(s, m, e);
    finish(s, m);
}
// dsl::scan in a production
namespace
{
Model* model; Errors* errs; bool has; int depth;
struct handler_cb {};
struct prod : lexy::scan_production<int>
{
    template <typename Context, typename Reader>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s, const char* arg)
    {
        Model& m = *model;
        // the errors are counted by the handler of the parse
        K(vp::P(arg) == vp::P(m.q.p), "scan() is called with another argument");
        K(vp::P(s.begin()) == vp::P(m.q.p), "the scanner begins elsewhere");
        check(s, m, *errs);
        op(s, m, *errs, vp_choice(OPS));
        check(s, m, *errs);
        if (m.state == FAILED && vp_choice(2)) op(s, m, *errs, 11);
        check(s, m, *errs);
        K(vp::P(s.begin()) == vp::P(arg), "the beginning moves");
        has = vp_choice(2);
        if (has) return 42;
        return lexy::scan_failed;
    }
};
struct prod_p : lexy::scan_production<int>
{
    static constexpr auto rule = lexy::dsl::position + lexy::dsl::scan;
    template <typename Context, typename Reader>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s, const char* arg) { return prod::scan(s, arg); }
};
struct outer
{
    static constexpr auto rule = lexy::dsl::capture(A) + lexy::dsl::p<prod_p> + B;
    static constexpr auto value = lexy::callback<int>([](auto, int x) { return x; });
};
} // namespace
WITNESS(scan_rule)
{
    begin(4);
    auto input = vp::tape_input<lexy::default_encoding>();
    Errors e; Record cb{&e};
    vp_cover_decl("value"); vp_cover_decl("no value");
    Model m{{input.reader().position()}};
    model = &m; errs = &e; has = false;
    bool a = m.q.eat('a');
    if (!a) m.err(m.q.p);
    auto r = lexy::parse<outer>(input, cb);
    bool want = a && has;
    if (want && !m.q.eat('b')) { m.err(m.q.p); want = false; }
    K(e.n == m.errs, "the parse reports another number of errors");
    if (m.errs) K(e.last == vp::P(m.last), "the parse goes on at another position");
    if (m.errs || want)
    {
        K(r.has_value() == want, "the parse has a value although scanning failed, or none although it succeeded");
        if (want) { K(r.value() == 42, "the value of scan() is lost"); vp_cover("value"); }
        else vp_cover("no value");
    }
}
