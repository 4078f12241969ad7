// A parse action that lets the productions' own value callbacks run and records errors.
#pragma once
#include "gen.hpp"
#include <lexy/grammar.hpp>
#include <lexy/callback.hpp>
namespace vp
{
struct Seen
{
    unsigned    errors = 0; // saturating at 8
    const void* pos    = nullptr; // first error
    const void* end    = nullptr;
    const char* what   = nullptr;
    int         index  = -1;
};
struct VHandler
{
    Seen* seen;
    struct event_handler
    {
        template <typename Info>
        event_handler(Info) {}
        template <typename Ev, typename... A>
            requires(!std::is_same_v<Ev, lexy::parse_events::error>)
        int on(VHandler&, Ev, A&&...) { return 0; }
        static void err(VHandler& h, const void* b, const void* e, const char* what, int index = -1)
        {
            if (h.seen->errors == 0)
            {
                h.seen->pos   = b;
                h.seen->end   = e;
                h.seen->what  = what;
                h.seen->index = index;
            }
            if (h.seen->errors < 8) ++h.seen->errors;
        }
        template <typename R, typename Tag>
        int on(VHandler& h, lexy::parse_events::error, const lexy::error<R, Tag>& e) { err(h, P(e.begin()), P(e.end()), e.message()); return 0; }
        template <typename R>
        int on(VHandler& h, lexy::parse_events::error, const lexy::error<R, lexy::expected_literal>& e) { err(h, P(e.position()), P(e.position()), "literal", int(e.index())); return 0; }
        template <typename R>
        int on(VHandler& h, lexy::parse_events::error, const lexy::error<R, lexy::expected_keyword>& e) { err(h, P(e.begin()), P(e.end()), "keyword"); return 0; }
        template <typename R>
        int on(VHandler& h, lexy::parse_events::error, const lexy::error<R, lexy::expected_char_class>& e) { err(h, P(e.position()), P(e.position()), "char class"); return 0; }
    };
    template <typename Production, typename State>
    using value_callback = lexy::production_value_callback<Production, State>;

    template <typename Result, typename T>
    Result get_result(bool ok, T&& v) && { return Result{ok, static_cast<T&&>(v)}; }
    template <typename Result>
    Result get_result(bool ok) && { return Result{ok}; }
};
template <typename T>
struct VRes { bool ok; T value{}; };
template <>
struct VRes<void> { bool ok; };

template <typename Production, typename Reader>
inline auto parse(Reader& reader, Seen& seen)
{
    return lexy::do_action<Production, VRes>(VHandler{&seen}, lexy::no_parse_state, reader);
}
} // namespace vp
