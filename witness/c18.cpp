// Call graph only: the public actions, inputs, callbacks and error classes over grammars that use every kind of rule, with
// caller-provided callbacks that do nothing themselves.
#include "vp.hpp"
#include <utility>
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/scan.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/argv_input.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/lexeme_input.hpp>
#include <lexy/input/parse_tree_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input_location.hpp>
#include <lexy/dsl/subgrammar.hpp>
namespace dsl = lexy::dsl;
namespace
{
struct OnError
{
    using return_type = void;
    struct sink_t
    {
        using return_type = std::size_t;
        std::size_t n = 0;
        template <typename Ctx, typename R, typename Tag> void operator()(const Ctx& ctx, const lexy::error<R, Tag>& e)
        {
            auto first = lexy::get_input_location(ctx.input(), ctx.position()); auto loc = lexy::get_input_location(ctx.input(), e.position(), first.anchor());
            n += loc.line_nr() + loc.column_nr();
            if constexpr (std::is_same_v<typename R::encoding, lexy::utf8_encoding>)
            {
                auto line = lexy::get_input_line_annotation(ctx.input(), loc, e.position());
                n += line.annotated.size();
            }
            n += *ctx.production();
        }
        std::size_t finish() && { return n; }
    };
    sink_t sink() const { return {}; }
};
struct Any { using return_type = int; template <typename... A> int operator()(A&&...) const { return 0; } struct S { using return_type = int; template <typename... A> void operator()(A&&...) {} int finish() && { return 0; } }; S sink() const { return {}; } };
//=== a grammar with every kind of rule ===//
struct Num { static constexpr auto rule = dsl::sign + dsl::integer<int>(dsl::digits<>.sep(dsl::digit_sep_tick).no_leading_zero()); static constexpr auto value = lexy::as_integer<int>; };
struct Hex { static constexpr auto rule = LEXY_LIT("0x") >> dsl::integer<unsigned char, dsl::hex> ; static constexpr auto value = lexy::forward<unsigned char>; };
struct Fix { static constexpr auto rule = LEXY_LIT("#") >> dsl::code_point_id<4>; static constexpr auto value = lexy::construct<lexy::code_point>; };
struct Id { static constexpr auto id = dsl::identifier(dsl::ascii::alpha, dsl::ascii::word); static constexpr auto rule = id.reserve(LEXY_KEYWORD("if", id), dsl::literal_set(LEXY_LIT("for"), LEXY_LIT("else")), LEXY_LIT("x") , dsl::ascii::case_folding(LEXY_LIT("int"))); static constexpr auto value = lexy::callback<int>([](auto l) { return int(l.size()); }); };
constexpr auto escapes = lexy::symbol_table<char>.map<'n'>('\n').map<'t'>('\t');
struct Cnt { using return_type = int; struct S { using return_type = int; int n = 0; template <typename... A> void operator()(A&&...) { ++n; } int finish() && { return n; } }; S sink() const { return {}; } };
struct Str { static constexpr auto rule = dsl::quoted(dsl::code_point - dsl::ascii::control, dsl::backslash_escape.symbol<escapes>().rule(dsl::lit_c<'u'> >> dsl::code_point_id<4>)); static constexpr auto value = Cnt{}; };
struct Raw { static constexpr auto rule = dsl::delimited(LEXY_LIT("<<"), LEXY_LIT(">>")).limit(dsl::ascii::newline)(dsl::unicode::print); static constexpr auto value = Cnt{}; };
struct Kv { int k = 0, v = 0; };
struct Agg { static constexpr auto rule = dsl::curly_bracketed.opt_list(((dsl::member<&Kv::k> = dsl::p<Id>) + dsl::equal_sign + (dsl::member<&Kv::v> = dsl::p<Num>)) , dsl::sep(dsl::comma)); static constexpr auto value = Any{}; };
struct KvP { static constexpr auto rule = dsl::partial_combination(LEXY_LIT("k") >> (dsl::member<&Kv::k> = dsl::p<Num>), LEXY_LIT("v") >> (dsl::member<&Kv::v> = dsl::p<Num>)); static constexpr auto value = lexy::as_aggregate<Kv>; };
struct Sum { static constexpr auto rule = dsl::square_bracketed.opt_list(dsl::p<Num>, dsl::trailing_sep(dsl::comma)); static constexpr auto value = lexy::fold_inplace<int>(0, [](int& a, int b) { a += b; }) >> lexy::callback<int>([](int x) { return x; }, [](lexy::nullopt) { return 0; }); };
struct Ex : lexy::expression_production
{
    static constexpr auto whitespace = dsl::ascii::space | dsl::hash_sign >> dsl::until(dsl::newline).or_eof();
    static constexpr auto atom = dsl::p<Hex> | dsl::parenthesized(dsl::recurse<Ex>) | dsl::p<Fix> | dsl::else_ >> dsl::p<Num>;
    struct Pw : dsl::infix_op_right { static constexpr auto op = dsl::op(LEXY_LIT("^")); using operand = dsl::atom; };
    struct Ng : dsl::prefix_op { static constexpr auto op = dsl::op(LEXY_LIT("-")) / dsl::op(LEXY_LIT("~")); using operand = Pw; };
    struct Ls : dsl::infix_op_list { static constexpr auto op = dsl::op(LEXY_LIT("+")); using operand = Ng; };
    struct Eq : dsl::infix_op_single { static constexpr auto op = dsl::op(LEXY_LIT("==")); using operand = Ls; };
    struct Po : dsl::postfix_op { static constexpr auto op = dsl::op(LEXY_LIT("!")); using operand = dsl::atom; };
    using operation = dsl::groups<Eq, Po>;
    static constexpr auto value = Any{};
};
struct Ctx
{
    static constexpr auto c  = dsl::context_counter<struct ctr>;
    static constexpr auto f  = dsl::context_flag<struct flg>;
    static constexpr auto id = dsl::context_identifier<struct cid>(dsl::identifier(dsl::ascii::alpha));
    static constexpr auto rule = c.create() + f.create() + id.create() + id.capture() + dsl::while_(LEXY_LIT("a") >> c.inc()) + dsl::while_(LEXY_LIT("b") >> c.dec()) + c.is_zero() + f.set() + f.is_set() + dsl::peek(LEXY_LIT(":") ) + LEXY_LIT(":") + id.rematch() + dsl::times<3>(LEXY_LIT("-")) + dsl::repeat(dsl::integer<int>(dsl::digits<>))(LEXY_LIT("."));
    static constexpr auto value = lexy::callback<int>([](auto&&...) { return 1; });
};
struct Look { static constexpr auto rule = dsl::lookahead(LEXY_LIT("?"), dsl::newline) >> dsl::until(LEXY_LIT("?")) | dsl::peek_not(LEXY_LIT("!")) >> dsl::opt(LEXY_LIT("z")) | dsl::else_ >> dsl::error<struct er>(dsl::any); static constexpr auto value = lexy::noop; };
struct Comb { static constexpr auto rule = dsl::combination(LEXY_LIT("1"), LEXY_LIT("2") >> dsl::position, LEXY_LIT("3")) + dsl::flag(LEXY_LIT("i")) ; static constexpr auto value = Cnt{} >> lexy::noop; };
enum class En { a = 1, b = 2 };
struct Fl { static constexpr auto table = lexy::symbol_table<En>.map<'i'>(En::a).map<'j'>(En::b); static constexpr auto rule = dsl::flags(dsl::symbol<table>(dsl::ascii::alpha)) + dsl::flag(dsl::lit_c<'t'>); static constexpr auto value = Any{}; };
struct Tk { static constexpr auto rule = dsl::token(dsl::p<Num> + dsl::opt(LEXY_LIT("."))).kind<5>; static constexpr auto value = Any{}; };
struct Skip { static constexpr auto rule = dsl::no_whitespace(dsl::eol) | dsl::ascii::blank >> dsl::if_(dsl::newline >> dsl::nullopt) | dsl::else_ >> dsl::eof; static constexpr auto value = lexy::noop; };
struct Try { static constexpr auto rule = dsl::try_(LEXY_LIT("t") >> dsl::p<Num>, dsl::find(LEXY_LIT(";")).limit(dsl::newline)) + dsl::recover(LEXY_LIT(".")) ; static constexpr auto value = lexy::noop; };
struct Rec { static constexpr auto rule = dsl::try_(LEXY_LIT("a") + dsl::p<Num>, dsl::recover(LEXY_LIT(";"), LEXY_LIT("}")).limit(dsl::newline)) + dsl::brackets(LEXY_LIT("("), LEXY_LIT(")")).try_(dsl::p<Num>); static constexpr auto value = lexy::noop; };
struct Case { static constexpr auto rule = dsl::ascii::case_folding(LEXY_LIT("Ab")) | dsl::unicode::simple_case_folding(LEXY_LIT("yz")); static constexpr auto value = Any{}; };
struct Sgn { static constexpr auto rule = dsl::minus_sign + dsl::integer<int>(dsl::n_digits<3>); static constexpr auto value = lexy::as_integer<int>; };
struct Sub { static constexpr auto rule = dsl::subgrammar<Num, int>; static constexpr auto value = lexy::forward<int>; };
} // namespace
namespace
{
struct Doc
{
    static constexpr auto max_recursion_depth = 10;
    static constexpr auto whitespace = dsl::ascii::space | LEXY_LIT("//") >> dsl::until(dsl::newline).or_eof();
    static constexpr auto rule = dsl::terminator(dsl::eof).opt_list(LEXY_LIT("n") >> dsl::p<Num> | LEXY_LIT("i") >> dsl::p<Id> | dsl::p<Str> | dsl::p<Raw> | LEXY_LIT("s") >> dsl::p<Sum> | LEXY_LIT("e") >> dsl::p<Ex> | LEXY_LIT("c") >> dsl::p<Ctx> | LEXY_LIT("l") >> dsl::p<Look> | LEXY_LIT("k") >> dsl::p<KvP> | LEXY_LIT("w") >> dsl::p<Skip> | LEXY_LIT("y") >> dsl::p<Try> | LEXY_LIT("d") >> dsl::p<Sgn>);
    static constexpr auto value = Cnt{} >> lexy::callback<int>([](int i) { return i; }, [](lexy::nullopt) { return 0; });
};
struct Doc2
{
    static constexpr auto rule = dsl::p<Rec> + dsl::p<Case> + dsl::p<Tk> + dsl::p<Fl> + dsl::p<Comb> + dsl::capture(dsl::any);
    static constexpr auto value = lexy::noop;
};
template <typename Prod, typename Input> int acts(const Input& in)
{
    int r = 0;
    r += lexy::match<Prod>(in);
    r += lexy::validate<Prod>(in, OnError{}).is_success();
    r += lexy::parse<Prod>(in, OnError{}).is_success();
    return r;
}
template <typename Input> int scans(const Input& in)
{
    auto s = lexy::scan(in, OnError{});
    s.parse(LEXY_LIT("a"));
    if (s.branch(LEXY_LIT("b"))) s.discard(dsl::ascii::digit);
    int r = 0;
    if (s.peek(LEXY_LIT("1"))) { auto n = s.template integer<int>(dsl::digits<>); if (n) r = n.value(); }
    s.error("msg", s.position(), s.position());
    if (!s) { auto g = s.error_recovery(); s.branch(LEXY_LIT(";")); std::move(g).finish(); }
    auto c = s.capture(LEXY_LIT("x"));
    auto o = s.template parse<Num>();
    lexy::scan_result<unsigned char> q;
    s.branch(q, dsl::p<Hex>);
    s.fatal_error("fatal", s.position());
    return r + c.has_value() + o.has_value() + s.is_at_eof();
}
} // namespace
WITNESS(ascii) { auto b = static_cast<const char*>(vp_tape(1, -1, 0)); acts<Doc>(lexy::string_input<lexy::ascii_encoding>(b, static_cast<const char*>(vp_tape_end()))); acts<Doc2>(lexy::string_input<lexy::ascii_encoding>(b, static_cast<const char*>(vp_tape_end()))); }
WITNESS(utf8) { auto b = static_cast<const char8_t*>(vp_tape(1, -1, 0)); acts<Doc>(lexy::string_input<lexy::utf8_encoding>(b, static_cast<const char8_t*>(vp_tape_end()))); acts<Doc2>(lexy::string_input<lexy::utf8_encoding>(b, static_cast<const char8_t*>(vp_tape_end()))); }
WITNESS(utf16) { auto b = static_cast<const char16_t*>(vp_tape(2, -1, 0)); acts<Doc>(lexy::string_input<lexy::utf16_encoding>(b, static_cast<const char16_t*>(vp_tape_end()))); }
WITNESS(buffer8) { lexy::buffer<lexy::utf8_encoding> b; acts<Doc>(b); acts<Doc2>(b); }
WITNESS(buffer32) { lexy::buffer<lexy::utf32_encoding> b; acts<Doc>(b); }
WITNESS(scanner) { auto b = static_cast<const char*>(vp_tape(1, -1, 0)); scans(lexy::string_input<lexy::ascii_encoding>(b, static_cast<const char*>(vp_tape_end()))); }
namespace
{
struct ScanP : lexy::scan_production<int>
{
    template <typename C, typename R> static scan_result scan(lexy::rule_scanner<C, R>& s)
    {
        auto n = s.template parse<Num>();
        if (!n) { auto r = s.error_recovery(); std::move(r).finish(); return lexy::scan_failed; }
        return int(s.recursion_depth()) + n.value();
    }
};
struct Pt { int x, y; };
struct Cb1 { static constexpr auto rule = dsl::integer<int>(dsl::n_digits<2>) + dsl::integer<int>(dsl::n_digits<2>); static constexpr auto value = lexy::construct<Pt>; };
struct Cb2 { static constexpr auto rule = dsl::list(LEXY_LIT("a") >> dsl::position); static constexpr auto value = lexy::count; };
struct Cb3 { static constexpr auto rule = dsl::list(dsl::integer<int>(dsl::n_digits<2>)); static constexpr auto value = lexy::fold<int>(0, [](int a, int b) { return a + b; }); };
struct Cb4 { static constexpr auto rule = dsl::integer<int>(dsl::n_digits<2>) + LEXY_LIT("!"); static constexpr auto value = lexy::bind(lexy::callback<int>([](int a, int b) { return a + b; }), lexy::_1, 5); };
struct Cb5 { static constexpr auto rule = LEXY_LIT("a"); static constexpr auto value = lexy::constant(4); };
struct Cb6 { static constexpr auto rule = dsl::integer<int>(dsl::n_digits<2>); static constexpr auto value = lexy::callback_with_state<int>([](int& s, int a) { return s + a; }); };
struct ScanTop { static constexpr auto rule = dsl::p<ScanP> + dsl::p<Cb1> + dsl::p<Cb2> + dsl::p<Cb3> + dsl::p<Cb4> + dsl::p<Cb5>; static constexpr auto value = Any{}; };
struct StTop { static constexpr auto rule = dsl::p<Cb6>; static constexpr auto value = lexy::forward<int>; };
struct Bin { static constexpr auto rule = dsl::bom<lexy::utf8_encoding, lexy::encoding_endianness::bom> + dsl::bint16 + dsl::little_bint32 + dsl::padding_bytes<2> + dsl::bytes<3> + dsl::bits(dsl::bit::_1, dsl::bit::any<7>); static constexpr auto value = Any{}; };
struct Args { static constexpr auto whitespace = dsl::argv_separator; static constexpr auto rule = dsl::list(dsl::capture(dsl::ascii::alpha)) + dsl::eof; static constexpr auto value = Cnt{} >> lexy::noop; };
struct It { const char* p; using value_type = char; using difference_type = std::ptrdiff_t; using reference = const char&; using pointer = const char*; using iterator_category = std::forward_iterator_tag; const char& operator*() const { return *p; } It& operator++() { ++p; return *this; } It operator++(int) { auto c = *this; ++p; return c; } bool operator==(const It& o) const { return p == o.p; } bool operator!=(const It& o) const { return p != o.p; } };
} // namespace
WITNESS(callbacks)
{
    auto b = static_cast<const char*>(vp_tape(1, -1, 0));
    lexy::string_input<lexy::ascii_encoding> in(b, static_cast<const char*>(vp_tape_end()));
    acts<ScanTop>(in);
    int st = 0;
    lexy::parse<StTop>(in, st, OnError{});
    lexy::validate<StTop>(in, lexy::noop);
    lexy::string_input<lexy::byte_encoding> raw(reinterpret_cast<const unsigned char*>(b), std::size_t(0));
    lexy::parse<Bin>(raw, lexy::noop);
    lexy::parse<Args>(lexy::argv_input(lexy::argv_iterator{}, lexy::argv_iterator{}), lexy::noop);
    lexy::validate<Args>(lexy::argv_input(lexy::argv_iterator{}, lexy::argv_iterator{}), lexy::noop);
    lexy::validate<Doc>(lexy::range_input<lexy::ascii_encoding, It>(It{b}, It{b}), lexy::noop);
    lexy::validate<Doc>(lexy::lexeme_input<decltype(in)>(in, b, b), OnError{});
}
