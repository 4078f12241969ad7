// A parse event monitor: an ordinary parse action handler that checks the protocol of the events.
#pragma once
#include "vp.hpp"
#include <lexy/action/base.hpp>
#include <lexy/dsl.hpp>
#include <lexy/error.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input/buffer.hpp>

namespace vp
{
template <typename T>
inline const T* P(const T* p) { return static_cast<const T*>(vp_pos(p)); }

struct Log // shared between the handler and the witness
{
    const void* begin   = nullptr;
    const void* tok_end = nullptr; // end of the last token (everything before is covered)
    const void* last    = nullptr; // position at the end of the grammar
    int         top     = 0; // innermost open production (its nesting level)
    int         started = 0, ended = 0; // grammar events
    int         outcome = -1;
    int         rec     = 0; // open recoveries
    unsigned    errors  = 0; // saturating: 0, 1, 2
    const char* tag     = nullptr;
    const char* msg     = nullptr;  // tag of the last error
};

struct Val // value of a production
{
    int x = 0;
};

template <typename Production>
struct Sink
{
    using return_type = Val;
    int done          = 0;
    template <typename... Args>
    void operator()(Args&&...)
    {
        VP_CHECK("C19", !done, "sink used after it was finished");
    }
    Val finish() &&
    {
        VP_CHECK("C19", !done, "sink finished twice");
        done = 1;
        return {};
    }
};

template <typename P, typename = void>
constexpr bool is_void = false;
template <typename P>
constexpr bool is_void<P, std::void_t<typename P::vp_void>> = true;

struct Handler
{
    Log* log;
    explicit Handler(Log* l) : log(l) {}

    struct event_handler
    {
        const void* begin  = nullptr;
        int         level  = 0;
        int         state  = 0; // 0 new, 1 open, 2 closed
        int         chains = 0, recovering = 0;

        template <typename Info>
        event_handler(Info) {}

        void live(Handler& h, const char* what)
        {
            VP_CHECK("C03", h.log->started && !h.log->ended, "event outside of the grammar");
            VP_CHECK("C03", state == 1 && h.log->top == level, what);
        }
        template <typename It>
        void inside(Handler& h, It pos)
        {
            auto p = P(pos);
            VP_CHECK("C04", p >= h.log->begin, "position before the start of the parse");
        }

        template <typename It>
        void on(Handler& h, lexy::parse_events::grammar_start, It pos)
        {
            VP_CHECK("C03", !h.log->started && !h.log->ended, "grammar started twice");
            h.log->started = 1;
            h.log->begin = h.log->tok_end = P(pos);
        }
        template <typename R>
        void on(Handler& h, lexy::parse_events::grammar_finish, R& reader)
        {
            end(h, reader, 1);
        }
        template <typename R>
        void on(Handler& h, lexy::parse_events::grammar_cancel, R& reader)
        {
            end(h, reader, 0);
        }
        template <typename R>
        void end(Handler& h, R& reader, int ok)
        {
            VP_CHECK("C03", h.log->started && !h.log->ended, "grammar ended twice or before its start");
            VP_CHECK("C03", h.log->top == 0, "grammar ends inside a production");
            h.log->ended   = 1;
            h.log->outcome = ok;
            auto p         = P(reader.position());
            VP_CHECK("C04", p == h.log->tok_end, "tokens do not cover the consumed input at the end of the grammar");
            h.log->last = p;
        }

        template <typename It>
        void on(Handler& h, lexy::parse_events::production_start, It pos)
        {
            VP_CHECK("C03", h.log->started && !h.log->ended, "production start outside of the grammar");
            VP_CHECK("C03", state == 0, "production started twice");
            state      = 1;
            level      = ++h.log->top;
            begin      = P(pos);
            // While input is being skipped in a recovery, its error token comes later; branches tried meanwhile start further on.
            VP_CHECK("C04", begin == h.log->tok_end || (h.log->rec > 0 && begin > h.log->tok_end), "production does not start where the previous token ended");
        }
        template <typename It>
        void on(Handler& h, lexy::parse_events::production_finish, It pos)
        {
            live(h, "production finished that is not the innermost open one");
            VP_CHECK("C03", chains == 0, "production finished inside an operation chain");
            VP_CHECK("C03", recovering == 0, "production finished during recovery");
            VP_CHECK("C04", P(pos) == h.log->tok_end, "tokens do not cover the production");
            state      = 2;
            h.log->top = level - 1;
        }
        template <typename It>
        void on(Handler& h, lexy::parse_events::production_cancel, It pos)
        {
            live(h, "production cancelled that is not the innermost open one");
            VP_CHECK("C03", recovering == 0, "production cancelled during recovery");
            VP_CHECK("C04", P(pos) == h.log->tok_end || (h.log->rec > 0 && P(pos) == begin), "tokens do not cover the cancelled production");
            state      = 2;
            h.log->top = level - 1;
        }

        template <typename It>
        int on(Handler& h, lexy::parse_events::operation_chain_start, It pos)
        {
            live(h, "operation chain outside of its production");
            inside(h, pos);
            return ++chains;
        }
        template <typename Op, typename It>
        void on(Handler& h, lexy::parse_events::operation_chain_op, Op, It pos)
        {
            live(h, "operation outside of its production");
            VP_CHECK("C03", chains > 0, "operation outside of a chain");
            inside(h, pos);
        }
        template <typename It>
        void on(Handler& h, lexy::parse_events::operation_chain_finish, int id, It pos)
        {
            live(h, "operation chain finished outside of its production");
            VP_CHECK("C03", id == chains, "operation chains are not nested");
            inside(h, pos);
            --chains;
        }

        template <typename Kind, typename It>
        void on(Handler& h, lexy::parse_events::token, Kind, It b, It e)
        {
            live(h, "token outside of the innermost production");
            auto pb = P(b), pe = P(e);
            VP_CHECK("C04", pb <= pe, "token ends before it begins");
            VP_CHECK("C04", pb == h.log->tok_end, "token does not start where the previous one ended");
            h.log->tok_end = pe;
        }
        template <typename It>
        void on(Handler& h, lexy::parse_events::backtracked, It b, It e)
        {
            live(h, "backtrack outside of the innermost production");
            VP_CHECK("C04", P(b) <= P(e), "backtracking goes forward");
            VP_CHECK("C04", P(b) == h.log->tok_end || (h.log->rec > 0 && P(b) > h.log->tok_end), "backtracking into reported tokens");
        }

        template <typename It>
        void on(Handler& h, lexy::parse_events::recovery_start, It pos)
        {
            live(h, "recovery outside of the innermost production");
            VP_CHECK("C03", recovering == 0, "recovery started inside a recovery");
            VP_CHECK("C06", h.log->errors > 0, "recovery without an error");
            inside(h, pos);
            recovering = 1;
            ++h.log->rec;
        }
        template <typename It>
        void on(Handler& h, lexy::parse_events::recovery_finish, It pos)
        {
            live(h, "recovery outside of the innermost production");
            VP_CHECK("C03", recovering == 1, "recovery finished that was not started");
            inside(h, pos);
            recovering = 0;
            --h.log->rec;
        }
        template <typename It>
        void on(Handler& h, lexy::parse_events::recovery_cancel, It pos)
        {
            live(h, "recovery outside of the innermost production");
            VP_CHECK("C03", recovering == 1, "recovery cancelled that was not started");
            inside(h, pos);
            recovering = 0;
            --h.log->rec;
        }

        void err(Handler& h, const void* b, const void* e)
        {
            live(h, "error outside of the innermost production");
            VP_CHECK("C07", b >= begin, "error before the start of its production");
            VP_CHECK("C07", b <= e, "error range runs backwards");
            if (h.log->errors < 2)
                ++h.log->errors;
        }
        template <typename R, typename Tag>
        void on(Handler& h, lexy::parse_events::error, const lexy::error<R, Tag>& e)
        {
            err(h, P(e.begin()), P(e.end()));
            h.log->msg = e.message();
        }
        template <typename R>
        void on(Handler& h, lexy::parse_events::error, const lexy::error<R, lexy::expected_literal>& e)
        {
            auto p = P(e.position());
            err(h, p, p);
            VP_CHECK("C07", e.index() < e.length(), "expected literal: index outside of the literal");
            // the matched prefix was read, so it lies inside the input
            auto q = P(e.position() + std::ptrdiff_t(e.index()));
            (void)q;
            h.log->msg     = "literal";
        }
        template <typename R>
        void on(Handler& h, lexy::parse_events::error, const lexy::error<R, lexy::expected_keyword>& e)
        {
            err(h, P(e.begin()), P(e.end()));
            h.log->msg = "keyword";
        }
        template <typename R>
        void on(Handler& h, lexy::parse_events::error, const lexy::error<R, lexy::expected_char_class>& e)
        {
            auto p = P(e.position());
            err(h, p, p);
            h.log->msg = "char class";
        }
    };

    template <typename Production, typename State, bool Void = is_void<Production>>
    struct value_callback
    {
        using return_type = Val;
        value_callback() = default;
        explicit value_callback(State*) {}
        auto sink() const { return Sink<Production>{}; }
        template <typename... Args>
        Val operator()(Args&&...) const { return {}; }
    };
    template <typename Production, typename State>
    struct value_callback<Production, State, true> // a production without a value
    {
        using return_type = void;
        value_callback() = default;
        explicit value_callback(State*) {}
        struct VSink { using return_type = void; template <typename... A> void operator()(A&&...) {} void finish() && {} };
        auto sink() const { return VSink{}; }
        template <typename... Args>
        void operator()(Args&&...) const {}
    };

    template <typename Result, typename T>
    Result get_result(bool ok, T&&) &&
    {
        finish(ok, true);
        return Result{ok};
    }
    template <typename Result>
    Result get_result(bool ok) &&
    {
        finish(ok, false);
        return Result{ok};
    }
    void finish(bool ok, bool value)
    {
        VP_CHECK("C03", log->ended == 1, "result taken before the grammar ended");
        VP_CHECK("C03", (log->outcome == 1) == ok, "grammar event and result disagree");
        VP_CHECK("C06", ok || log->errors > 0, "failure without any error");
        VP_CHECK("C06", ok == value, "value present on failure or missing on success");
    }
};
template <typename T>
struct Result { bool ok; };

// Parse with the monitor; fills the log.
template <typename Production, typename Input>
inline bool run(const Input& input, Log& log)
{
    auto reader = input.reader();
    auto r      = lexy::do_action<Production, Result>(Handler(&log), lexy::no_parse_state, reader);
    return r.ok;
}

template <typename Encoding>
inline auto tape_input()
{
    using C = typename Encoding::char_type;
    auto b  = static_cast<const C*>(vp_tape(sizeof(C), -1, 0));
    auto e  = static_cast<const C*>(vp_tape_end());
    return lexy::string_input<Encoding>(b, e);
}
// an input that ends in the sentinel, read by the reader lexy::buffer uses (SWAR)
template <typename Encoding>
struct Sentinel
{
    using encoding  = Encoding;
    using char_type = typename Encoding::char_type;
    const char_type* begin;
    auto reader() const& { return decltype(static_cast<const lexy::buffer<Encoding>*>(nullptr)->reader())(begin); }
};
template <typename Encoding>
inline auto sentinel_input()
{
    using C = typename Encoding::char_type;
    return Sentinel<Encoding>{static_cast<const C*>(vp_tape(sizeof(C), int64_t(uint64_t(Encoding::eof()) & (~uint64_t(0) >> (64 - 8 * sizeof(C)))), 1))};
}
template <typename Production, typename Encoding = lexy::utf8_char_encoding>
inline void check_swar(const char* ok = "success", const char* fail = "failure")
{
    auto input = sentinel_input<Encoding>();
    Log  log;
    if (ok) vp_cover_decl(ok);
    if (fail) vp_cover_decl(fail);
    if (run<Production>(input, log)) { if (ok) vp_cover(ok); }
    else { if (fail) vp_cover(fail); }
}
// generic check of a grammar over all inputs
template <typename Production, typename Encoding = lexy::utf8_char_encoding>
inline void check(const char* ok = "success", const char* fail = "failure")
{
    auto input = tape_input<Encoding>();
    Log  log;
    if (ok) vp_cover_decl(ok);
    if (fail) vp_cover_decl(fail);
    if (run<Production>(input, log)) { if (ok) vp_cover(ok); }
    else { if (fail) vp_cover(fail); }
}
} // namespace vp
