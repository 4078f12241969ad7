// Traces and error reports: what they say about the parse is what happened, at the line and column where it happened.
#define VISPROP "C29"
#define LEXY_EXPERIMENTAL 1
#include "vis.hpp"
#include "mon.hpp"
#include <lexy/dsl.hpp>
#define snprintf vp_snprintf
#include <lexy/action/trace.hpp>
#include <lexy/action/validate.hpp>
#include <lexy_ext/report_error.hpp>
#undef snprintf
#include <lexy/input/string_input.hpp>
#define K(cond, msg) VP_CHECK("C29", cond, msg)
namespace dsl = lexy::dsl;
using vp::Out; using vp::OutIt;
enum class tk { x, y };
constexpr const char* token_kind_name(tk k) { return k == tk::x ? "ex" : "why"; }
template <typename T>
static void show(Out& out, const T& t, lexy::visualization_options o) { Out p; vp::formatting = &p; lexy::visualize_to(OutIt{&p}, t, o); out.append(p); }
using Input = lexy::string_input<lexy::default_encoding>;
using Pos = const char*;
// where a position is
struct Loc { unsigned line, col; };
static Loc loc(Pos b, Pos p)
{
    Loc l{1, 1};
    for (; b != p; ++b) if (vp_split(*b == '\n')) { ++l.line; l.col = 1; } else ++l.col;
    return l;
}
// writes the trace from the events themselves
struct Log { Out* o; Pos begin; lexy::visualization_options opts; unsigned depth = 0; bool moved = false; int events = 0; };
struct TH
{
    Log* log;
    enum pre { event, cancel, finish };
    void prefix(Pos p, pre k)
    {
        auto& o = *log->o; auto d = log->depth; bool uni = log->opts.is_set(lexy::visualize_use_unicode);
        ++log->events;
        if (d > log->opts.max_tree_depth) return;
        if (d > 0) o.put('\n');
        auto l = loc(log->begin, p); unsigned long v[2] = {l.line, l.col};
        vp::formatting = nullptr;
        char b[16]; int n = vp::format(b, 16, "%2u:%3u", v, 2);
        o.num[o.nn++] = {o.n + (l.line < 10), l.line < 10 ? 1 : 2, l.line};
        o.num[o.nn++] = {o.n + n - (l.col < 10 ? 1 : 2), l.col < 10 ? 1 : 2, l.col};
        for (int i = 0; i < n; ++i) o.put(b[i]);
        o.text(": ");
        for (unsigned i = 1; i < d; ++i) if (uni) { o.text8(u8"│"); o.text("  "); } else o.text("  ");
        if (d == 0) return;
        if (k == event) { if (uni) o.text8(u8"├──"); else o.text("- "); }
        else if (k == cancel) { if (uni) o.text8(u8"└╳"); else o.text("-x"); }
        else if (uni) o.text8(u8"┴"); else o.text("- finish");
    }
    void text(const char* s) { if (log->depth <= log->opts.max_tree_depth) log->o->text(s); }
    void lexeme(Pos b, Pos e) { if (log->depth <= log->opts.max_tree_depth) show(*log->o, lexy::lexeme_for<Input>(b, e), log->opts | lexy::visualize_space); }
    void open(Pos p, const char* name, const char* colon)
    {
        prefix(p, event); text(name); text(colon);
        if (log->depth == log->opts.max_tree_depth) { log->o->put(' '); if (log->opts.is_set(lexy::visualize_use_unicode)) log->o->text8(u8"…"); else log->o->text("..."); }
        ++log->depth;
    }
    void close(Pos p, pre k) { prefix(p, k); --log->depth; }
    struct event_handler
    {
        lexy::production_info info;
        event_handler(lexy::production_info i) : info(i) {}
        void on(TH&, lexy::parse_events::grammar_start, Pos) {}
        template <typename R> void on(TH&, lexy::parse_events::grammar_finish, R&) {}
        template <typename R> void on(TH&, lexy::parse_events::grammar_cancel, R&) {}
        void on(TH& h, lexy::parse_events::production_start, Pos p) { h.open(p, info.name, ":"); }
        void on(TH& h, lexy::parse_events::production_finish, Pos p) { h.close(p, finish); }
        void on(TH& h, lexy::parse_events::production_cancel, Pos p) { h.close(p, cancel); vp_cover("cancelled"); }
        int on(TH& h, lexy::parse_events::operation_chain_start, Pos p) { h.open(p, "operation chain", ":"); return 0; }
        template <typename Op> void on(TH& h, lexy::parse_events::operation_chain_op, Op, Pos p) { h.prefix(p, event); h.text("operation: "); h.text(lexy::production_name<Op>()); }
        template <typename M> void on(TH& h, lexy::parse_events::operation_chain_finish, M, Pos p) { h.close(p, finish); }
        template <typename T> void on(TH& h, lexy::parse_events::token, T kind, Pos b, Pos e)
        {
            lexy::token_kind<tk> k(kind);
            if (b == e && k.ignore_if_empty()) return;
            h.prefix(b, event); h.text(k.name());
            if (b != e) { h.text(": "); h.lexeme(b, e); }
        }
        void on(TH& h, lexy::parse_events::backtracked, Pos b, Pos e) { if (b == e) return; h.prefix(b, event); h.text("backtracked: "); h.lexeme(b, e); vp_cover("backtracked"); }
        template <typename R, typename Tag> void on(TH& h, lexy::parse_events::error, const lexy::error<R, Tag>& e) { h.prefix(e.position(), event); h.text("error: "); h.text(e.message()); vp_cover("error"); }
        template <typename R> void on(TH& h, lexy::parse_events::error, const lexy::error<R, lexy::expected_literal>& e) { lit(h, e, "error: expected '"); }
        template <typename R> void on(TH& h, lexy::parse_events::error, const lexy::error<R, lexy::expected_keyword>& e) { lit(h, e, "error: expected keyword '"); }
        template <typename R> void on(TH& h, lexy::parse_events::error, const lexy::error<R, lexy::expected_char_class>& e) { h.prefix(e.position(), event); h.text("error: expected "); h.text(e.name()); vp_cover("error"); }
        template <typename E> void lit(TH& h, const E& e, const char* what)
        {
            h.prefix(e.position(), event); h.text(what);
            if (h.log->depth <= h.log->opts.max_tree_depth) for (unsigned i = 0; i < e.length(); ++i) show(*h.log->o, lexy::code_point(char32_t(e.string()[i])), h.log->opts);
            h.text("'"); vp_cover("error");
        }
        void on(TH& h, lexy::parse_events::recovery_start, Pos p) { h.open(p, "error recovery", ":"); vp_cover("recovery"); }
        void on(TH& h, lexy::parse_events::recovery_finish, Pos p) { h.close(p, finish); }
        void on(TH& h, lexy::parse_events::recovery_cancel, Pos p) { h.close(p, cancel); }
        void on(TH& h, lexy::parse_events::debug, Pos p, const char* s) { h.prefix(p, event); h.text("debug: "); h.text(s); vp_cover("debug"); }
    };
    template <typename Production, typename State> using value_callback = lexy::_detail::void_value_callback;
    template <typename R, typename... T> R get_result(bool ok, T&&...) && { return R{ok}; }
};
template <typename T> struct TRes { bool ok; };
static Input text(int n, const char* chars)
{
    n += vp::MORE;
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    vp_tape(1, -1, 0); // tape_input uses the same one
    for (auto p = chars; *p; ++p) p == chars ? vp_tape_domain(*p, *p) : vp_tape_domain_add(*p, *p);
    return vp::tape_input<lexy::default_encoding>();
}
template <typename P>
static void trace(const Input& in, unsigned char max = 32, bool uni = false)
{
    lexy::visualization_options o; o.max_tree_depth = max; if (uni) o = o | lexy::visualize_use_unicode;
    Out w; Log log{&w, in.data(), o};
    auto r = in.reader();
    lexy::do_action<P, TRes>(TH{&log}, lexy::no_parse_state, r);
    w.put('\n');
    Out out; vp::formatting = &out;
    auto it = lexy::trace_to<P, tk>(OutIt{&out}, in, o);
    K(it.o == &out, "another output iterator is returned");
    K(out == w, "the trace is not what the events of the parse are");
}
// lists of productions on lines
struct t_item { static constexpr auto name = "i"; static constexpr auto rule = LEXY_LIT("a") >> LEXY_DEBUG("dbg") + dsl::opt(LEXY_LIT("bc")) + LEXY_LIT("b"); };
struct t_list { static constexpr auto name = "l"; static constexpr auto whitespace = dsl::newline; static constexpr auto rule = dsl::list(dsl::p<t_item>) + dsl::eof; };
WITNESS(list) { vp_cover_decl("debug"); vp_cover_decl("error"); trace<t_list>(text(4, "ab\n")); }
WITNESS(list_uni) { vp_cover_decl("debug"); vp_cover_decl("error"); trace<t_list>(text(3, "ab\n"), 32, true); }
WITNESS(list_limit) { vp_cover_decl("debug"); vp_cover_decl("error"); trace<t_list>(text(3, "ab\n"), (unsigned char)vp_choice(3)); }
// a delimited text whose escape sequence is a production: the error is at its begin
struct t_esc { static constexpr auto name = "e"; static constexpr auto rule = LEXY_LIT("a"); };
struct t_str { static constexpr auto name = "s"; static constexpr auto rule = dsl::delimited(LEXY_LIT("b"), LEXY_LIT("c"))(LEXY_ASCII_ONE_OF("a\n"), dsl::escape(dsl::lit_c<'x'>).rule(dsl::p<t_esc>)); };
WITNESS(delim) { vp_cover_decl("error"); trace<t_str>(text(4, "abcx\n")); }
// recovery, branches that are taken back, kinds of tokens of the user
struct t_br { static constexpr auto name = "b"; static constexpr auto rule = LEXY_LIT("a") >> LEXY_LIT("\n") + dsl::token(LEXY_LIT("c")).kind<tk::y>; };
struct t_rec { static constexpr auto name = "r"; static constexpr auto rule = dsl::try_(dsl::p<t_br> | dsl::peek(LEXY_LIT("bb")) >> dsl::token(LEXY_LIT("b") + dsl::while_(LEXY_LIT("b"))).kind<tk::x> + LEXY_LIT("\n"), dsl::find(LEXY_LIT("c"))) + LEXY_LIT("c"); };
WITNESS(rec) { vp_cover_decl("recovery"); vp_cover_decl("error"); vp_cover_decl("backtracked"); trace<t_rec>(text(4, "abc\n")); }
struct t_tok { static constexpr auto name = "t"; static constexpr auto rule = dsl::token(LEXY_LIT("a") / LEXY_LIT("\n")).kind<tk::x> + (dsl::lookahead(LEXY_LIT("b"), LEXY_LIT("c")) >> dsl::any | dsl::else_ >> dsl::identifier(LEXY_ASCII_ONE_OF("ac")).reserve(LEXY_LIT("ac"))) + dsl::eof; };
WITNESS(tok) { vp_cover_decl("backtracked"); vp_cover_decl("error"); trace<t_tok>(text(4, "abc\n")); }
struct t_kw { static constexpr auto name = "k"; static constexpr auto whitespace = LEXY_LIT("\n"); static constexpr auto rule = LEXY_KEYWORD("ab", dsl::identifier(LEXY_ASCII_ONE_OF("ab"))) + dsl::digit<> + LEXY_ASCII_ONE_OF("b"); };
WITNESS(kw) { vp_cover_decl("error"); trace<t_kw>(text(4, "ab1\n")); }
// nested productions that are entered speculatively and left again
struct t_sub;
LEXY_DECLARE_SUBGRAMMAR(t_sub)
struct t_sub { static constexpr auto name = "u"; static constexpr auto whitespace = LEXY_LIT("\n"); static constexpr auto rule = LEXY_LIT("a") + LEXY_LIT("b"); using vp_void = int; static constexpr auto value = lexy::noop; };
LEXY_DEFINE_SUBGRAMMAR(t_sub)
struct t_in { static constexpr auto name = "n"; static constexpr auto rule = dsl::peek(LEXY_LIT("a") + LEXY_LIT("b")) >> LEXY_LIT("a") + LEXY_LIT("b") + dsl::newline; };
struct t_nest { static constexpr auto name = "o"; static constexpr auto rule = dsl::while_(dsl::p<t_in> | LEXY_LIT("c") >> dsl::recover(LEXY_LIT("b"))) + dsl::eof; };
WITNESS(nest) { vp_cover_decl("error"); vp_cover_decl("recovery"); trace<t_nest>(text(4, "abc\n")); }
// operations
struct t_expr : lexy::expression_production
{
    static constexpr auto name = "x"; static constexpr auto whitespace = LEXY_LIT("\n");
    static constexpr auto atom = dsl::if_(LEXY_LIT("b")) + LEXY_LIT("a");
    struct plus : dsl::infix_op_left { static constexpr auto name = "plus"; static constexpr auto op = dsl::op(LEXY_LIT("+")); using operand = dsl::atom; };
    struct neg : dsl::prefix_op { static constexpr auto name = "neg"; static constexpr auto op = dsl::op(LEXY_LIT("-")); using operand = plus; };
    using operation = neg;
};
struct t_top { static constexpr auto name = "top"; static constexpr auto rule = dsl::p<t_expr> + dsl::eof; };
WITNESS(expr) { vp_cover_decl("error"); trace<t_top>(text(3, "ab+-\n")); }
// a scan reports where it wants
struct t_scan : lexy::scan_production<void>
{
    static constexpr auto name = "c"; struct tag { static constexpr auto name = "my error"; };
    template <typename R, typename C> static constexpr bool scan(lexy::rule_scanner<C, R>& sc)
    {
        auto b = sc.position();
        sc.parse(dsl::while_(LEXY_LIT("a") | LEXY_LIT("\n")));
        sc.parse(dsl::p<t_esc>);
        if (!sc) sc.error(tag{}, b, sc.position());
        else sc.parse(LEXY_LIT("b"));
        return bool(sc);
    }
};

//=== reports ===//
struct Rep
{
    struct Sink
    {
        Out* o; lexy::visualization_options opts; const char* path; std::size_t count = 0;
        using return_type = std::size_t;
        static unsigned width(const Out& t) { unsigned w = 0; for (int i = 0; i < t.n; ++i) if ((t.s[i] & 0xC0) != 0x80) ++w; return w; }
        void bar() { if (opts.is_set(lexy::visualize_use_unicode)) o->text8(u8"│"); else o->put('|'); }
        // [b, e) of the line of b; how long the request was
        void annotate(Pos begin, Pos b, Pos e, bool sized, const char* mark, const Out& message)
        {
            Pos lb = begin, le = b; unsigned nr = 1;
            for (auto p = begin; p != b; ++p) if (vp_split(*p == '\n')) { ++nr; lb = p + 1; }
            while (!vp_at_end(le) && !vp_split(*le == '\n')) ++le;
            Pos ne = vp_at_end(le) ? le : le + 1;
            bool cut = false;
            if (b == e) { if (b == le) e = ne; else ++e; if (sized && b == ne) cut = false; }
            else if (e > ne) { e = ne; cut = true; }
            vp::formatting = nullptr;
            char num[16]; unsigned long v = nr; int n = vp::format(num, 16, "%4u ", &v, 1);
            o->num[o->nn++] = {o->n + n - 2, 1, v};
            for (int i = 0; i < n; ++i) o->put(num[i]);
            bar(); o->put(' ');
            Out before, ann, after;
            show(before, lexy::lexeme_for<Input>(lb, b), opts);
            if (e <= le) { show(ann, lexy::lexeme_for<Input>(b, e), opts); show(after, lexy::lexeme_for<Input>(e, le), opts); }
            else { show(ann, lexy::lexeme_for<Input>(b, ne), opts); vp_cover("newline"); }
            o->append(before); o->append(ann); o->append(after); o->put('\n');
            o->text("     "); bar(); o->put(' ');
            for (unsigned i = 0; i < width(before); ++i) o->put(' ');
            unsigned w = width(ann);
            if (w == 0 || (cut && e <= le)) ++w;
            for (unsigned i = 0; i < w; ++i) o->text(mark);
            o->put(' '); o->append(message); o->put('\n');
        }
        template <typename Ctx> void head(const Ctx& c, Pos p)
        {
            o->text("error: while parsing "); o->text(c.production()); o->put('\n');
            if (path) { o->text(path); o->put('\n'); }
            o->text("     "); bar(); o->put('\n');
            if (loc(c.input().data(), c.position()).line != loc(c.input().data(), p).line)
            {
                Out m; m.text("beginning here");
                annotate(c.input().data(), c.position(), c.position() + 1, false, "~", m);
                o->text("     "); bar(); o->put('\n');
                vp_cover("other line");
            }
            ++count; vp_cover("error");
        }
        template <typename Ctx, typename R, typename Tag> void operator()(const Ctx& c, const lexy::error<R, Tag>& e)
        {
            head(c, e.position()); Out m; m.text(e.message());
            annotate(c.input().data(), e.begin(), e.end(), false, "^", m);
        }
        template <typename Ctx, typename R> void operator()(const Ctx& c, const lexy::error<R, lexy::expected_char_class>& e)
        {
            head(c, e.position()); Out m; m.text("expected "); m.text(e.name());
            annotate(c.input().data(), e.position(), e.position(), true, "^", m);
        }
        template <typename E> void lit(Out& m, const E& e) { for (unsigned i = 0; i < e.length(); ++i) show(m, lexy::code_point(char32_t(e.string()[i])), opts); m.put('\''); }
        template <typename Ctx, typename R> void operator()(const Ctx& c, const lexy::error<R, lexy::expected_keyword>& e)
        {
            head(c, e.position()); Out m; m.text("expected keyword '"); lit(m, e);
            annotate(c.input().data(), e.begin(), e.end(), false, "^", m);
        }
        template <typename Ctx, typename R> void operator()(const Ctx& c, const lexy::error<R, lexy::expected_literal>& e)
        {
            head(c, e.position()); Out m; m.text("expected '"); lit(m, e);
            Pos p = e.position(); bool cut = false;
            // what matched and the unit that did not, within the line
            for (unsigned i = 0; i <= e.index(); ++i) { if (vp_at_end(p)) { cut = i > 0; break; } bool nl = vp_split(*p == '\n'); ++p; if (nl) { cut = i < e.index(); break; } }
            (void)cut;
            litann(c.input().data(), e.position(), p, e.index() + 1, m);
        }
        void litann(Pos begin, Pos b, Pos e, std::size_t size, const Out& m)
        {
            Out save; save.append(*o); o->n = o->nn = 0;
            annotate(begin, b, e, true, "^", m);
            // a literal that the input is too short for also marks the place behind
            if (b != e && vp_at_end(e) && std::size_t(e - b) < size && !vp_split(e[-1] == '\n'))
            {
                Out t; int i = o->n - 1;
                for (; i > 0 && o->s[i - 1] != '^'; --i) {}
                t.append(*o); o->n = i; o->put('^'); for (; i < t.n; ++i) o->put(t.s[i]);
            }
            Out t; t.append(*o); o->n = o->nn = 0; o->append(save); o->append(t);
        }
        std::size_t finish() && { if (count) o->put('\n'); return count; }
    };
    Out* o; lexy::visualization_options opts; const char* path;
    Sink sink() const { return {o, opts, path}; }
};
template <typename P>
static void report(const Input& in, bool uni, bool path)
{
    vp_cover_decl("error");
    lexy::visualization_options o; if (uni) o = o | lexy::visualize_use_unicode;
    const char* file = path ? "dir/f" : nullptr;
    Out w, out;
    auto a = lexy::validate<P>(in, Rep{&w, o, file});
    vp::formatting = &out;
    auto cb = lexy_ext::report_error.to(OutIt{&out}).opts(o);
    auto b = lexy::validate<P>(in, path ? cb.path(file) : cb);
    K(a.error_count() == b.error_count() && a.is_success() == b.is_success(), "the number of errors is another one");
    K(out == w, "the report is not what the errors are");
}
WITNESS(rep_list) { report<t_list>(text(4, "ab\n"), false, false); }
WITNESS(rep_opts) { report<t_list>(text(2, "ab\n"), vp_choice(2), vp_choice(2)); }
WITNESS(rep_delim) { vp_cover_decl("other line"); report<t_str>(text(4, "abcx\n"), false, false); }
WITNESS(rep_rec) { report<t_rec>(text(4, "abc\n"), false, true); }
WITNESS(rep_tok) { report<t_tok>(text(4, "abc\n"), false, false); }
WITNESS(rep_kw) { report<t_kw>(text(4, "ab1\n"), false, false); }
WITNESS(rep_nest) { report<t_nest>(text(4, "abc\n"), false, false); }
WITNESS(rep_scan) { report<t_scan>(text(4, "ab\n"), false, false); }
struct t_lit { static constexpr auto name = "w"; static constexpr auto rule = dsl::while_(dsl::newline) + LEXY_LIT("ab\nb") + dsl::eof; };
WITNESS(rep_lit) { vp_cover_decl("newline"); vp_cover_decl("other line"); report<t_lit>(text(5, "ab\n"), false, false); }
