// Errors against a reference: for every input up to a length the first error is the documented one, at the documented
// position, with the documented range and index.
#pragma once
#include "acc.hpp"
namespace vp
{
struct Er // what the reference expects: no error, or an error of a kind with a range
{
    int         kind  = 0; // 0: none
    const void* b     = nullptr;
    const void* e     = nullptr;
    int         index = -1;
};
template <typename Tag> struct kind_of { static constexpr int value = 1; };
#define VP_KIND(n, ...) template <> struct kind_of<__VA_ARGS__> { static constexpr int value = n; };
enum { k_other = 1, k_lit, k_kw, k_cc, k_choice, k_lset, k_eof, k_nl, k_peek, k_look, k_unexp, k_trail, k_res, k_sym, k_over, k_zero, k_delim, k_esc, k_follow, k_dup, k_flag, k_missing, k_diff, k_uneq, k_depth, k_tag, k_mis };
VP_KIND(k_lit, lexy::expected_literal)
VP_KIND(k_kw, lexy::expected_keyword)
VP_KIND(k_cc, lexy::expected_char_class)
VP_KIND(k_choice, lexy::exhausted_choice)
VP_KIND(k_lset, lexy::expected_literal_set)
VP_KIND(k_eof, lexy::expected_eof)
VP_KIND(k_nl, lexy::expected_newline)
VP_KIND(k_peek, lexy::peek_failure)
VP_KIND(k_look, lexy::lookahead_failure)
VP_KIND(k_unexp, lexy::unexpected)
VP_KIND(k_trail, lexy::unexpected_trailing_separator)
VP_KIND(k_res, lexy::reserved_identifier)
VP_KIND(k_sym, lexy::unknown_symbol)
VP_KIND(k_over, lexy::integer_overflow)
VP_KIND(k_zero, lexy::forbidden_leading_zero)
VP_KIND(k_delim, lexy::missing_delimiter)
VP_KIND(k_esc, lexy::invalid_escape_sequence)
VP_KIND(k_follow, lexy::follow_restriction)
VP_KIND(k_dup, lexy::combination_duplicate)
VP_KIND(k_flag, lexy::duplicate_flag)
VP_KIND(k_missing, lexy::missing_token)
VP_KIND(k_diff, lexy::different_identifier)
VP_KIND(k_uneq, lexy::unequal_counts)
VP_KIND(k_depth, lexy::max_recursion_depth_exceeded)
VP_KIND(k_mis, lexy::mismatched_byte_count)

struct ELog { Er first; };
struct EHandler
{
    ELog* log;
    struct event_handler
    {
        template <typename Info>
        event_handler(Info) {}
        template <typename Ev, typename... A>
            requires(!std::is_same_v<Ev, lexy::parse_events::error>)
        int on(EHandler&, Ev, A&&...) { return 0; }
        static int err(EHandler& h, int kind, const void* b, const void* e, int index = -1)
        {
            if (!h.log->first.kind) h.log->first = {kind, b, e, index};
            return 0;
        }
        template <typename R, typename Tag>
        int on(EHandler& h, lexy::parse_events::error, const lexy::error<R, Tag>& e) { VP_CHECK("C07", P(e.position()) == P(e.begin()), "error position is not the start of its range"); return err(h, kind_of<Tag>::value, P(e.begin()), P(e.end())); }
        template <typename R>
        int on(EHandler& h, lexy::parse_events::error, const lexy::error<R, lexy::expected_literal>& e) { return err(h, k_lit, P(e.position()), P(e.position()), int(e.index())); }
        template <typename R>
        int on(EHandler& h, lexy::parse_events::error, const lexy::error<R, lexy::expected_keyword>& e) { return err(h, k_kw, P(e.begin()), P(e.end())); }
        template <typename R>
        int on(EHandler& h, lexy::parse_events::error, const lexy::error<R, lexy::expected_char_class>& e) { return err(h, k_cc, P(e.position()), P(e.position())); }
    };
    template <typename Production, typename State>
    using value_callback = typename Handler::template value_callback<Production, State>;
    template <typename Result, typename T>
    Result get_result(bool ok, T&&) && { return Result{ok}; }
    template <typename Result>
    Result get_result(bool ok) && { return Result{ok}; }
};
template <typename T> struct ERes { bool ok; };

template <typename Prod, bool Always = false, typename Input, typename Ref>
inline void errors_on(Input input, Ref ref)
{
    using C = typename decltype(input.reader())::encoding::char_type;
    if (!Always) vp_cover_decl("no error");
    vp_cover_decl("error");
    ::ref::Cur<C> q{input.reader().position()};
    Er   want = ref(q);
    ELog log;
    auto reader = input.reader();
    lexy::do_action<Prod, ERes>(EHandler{&log}, lexy::no_parse_state, reader);
    auto& got = log.first;
    VP_CHECK("C07", !got.kind || want.kind, "reports an error where none is documented");
    VP_CHECK("C07", got.kind || !want.kind, "does not report the documented error");
    if (got.kind && want.kind)
    {
        vp_cover("error");
        VP_CHECK("C07", got.kind == want.kind, "reports another kind of error than documented");
        VP_CHECK("C07", got.b == want.b, "error at another position than documented");
        if (want.e) VP_CHECK("C07", got.e == want.e, "error covers another range than documented");
        VP_CHECK("C07", got.index == want.index, "expected literal: index is not the first unit that differs");
    }
    else vp_cover("no error");
}
template <typename Prod, typename Enc, bool Always = false, typename Ref>
inline void errors(int n, Ref ref)
{
    n += MORE;
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    vp_tape(sizeof(typename Enc::char_type), -1, 0);
    domain<Enc>();
    errors_on<Prod, Always>(tape_input<Enc>(), ref);
}
template <typename Prod, typename Enc, typename Ref>
inline void errors_swar(int n, Ref ref)
{
    n += MORE;
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    auto input = sentinel_input<Enc>();
    domain<Enc>();
    errors_on<Prod>(input, ref);
}
} // namespace vp
#define ERR(name, n, rule_, ...) struct p_##name { static constexpr auto rule = rule_; }; WITNESS(name) { using namespace vp; vp::errors<p_##name, lexy::default_encoding>(n, [](ref::Ch& c) -> vp::Er { __VA_ARGS__ }); }
#define ERRE(name, enc, n, rule_, ...) struct p_##name { static constexpr auto rule = rule_; }; WITNESS(name) { using namespace vp; vp::errors<p_##name, lexy::enc##_encoding>(n, [](auto& c) -> vp::Er { __VA_ARGS__ }); }
#define ERRS(name, enc, n, rule_, ...) struct p_##name { static constexpr auto rule = rule_; }; WITNESS(name) { using namespace vp; vp::errors_swar<p_##name, lexy::enc##_encoding>(n, [](auto& c) -> vp::Er { __VA_ARGS__ }); }
// a production with more members
#define ERRP(name, n, prod, ...) WITNESS(name) { using namespace vp; vp::errors<prod, lexy::default_encoding>(n, [](ref::Ch& c) -> vp::Er { __VA_ARGS__ }); }
// a rule that never succeeds
#define ERRA(name, n, rule_, ...) struct p_##name { static constexpr auto rule = rule_; }; WITNESS(name) { using namespace vp; vp::errors<p_##name, lexy::default_encoding, true>(n, [](ref::Ch& c) -> vp::Er { __VA_ARGS__ }); }
