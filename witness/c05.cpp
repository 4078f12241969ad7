// Every rule that can be a branch condition, as condition of an alternative: it is taken exactly when the condition
// matches, and when it is not taken the next alternative starts where it was tried, without errors, tokens, values or
// changes to the parse context.
#include "gen.hpp"
#include <lexy/dsl.hpp>
#include <lexy/callback.hpp>
namespace
{
vp::Log*    lg;
const void* start;
const void* end1;
int         taken;      // which alternative went on
bool        seen;
int         ws, depth;
const void* vars;
// what the control block says, as far as it has such members
template <typename CB>
void ctx(CB* cb, int& w, int& d, const void*& v)
{
    w = d = 0; v = nullptr;
    if constexpr (requires { cb->no_whitespace_depth; }) w = int(cb->no_whitespace_depth);
    if constexpr (requires { cb->cur_depth; }) d = int(cb->cur_depth);
    if constexpr (requires { static_cast<const void*>(cb->vars); }) v = cb->vars;
}
// remembers the state in which the alternatives are tried
struct Before : lexyd::rule_base
{
    template <typename NextParser>
    struct p
    {
        template <typename Context, typename Reader, typename... Args>
        static bool parse(Context& context, Reader& reader, Args&&... args)
        {
            auto cb = context.control_block;
            start = vp::P(reader.position()); ctx(cb, ws, depth, vars); seen = true;
            return NextParser::parse(context, reader, static_cast<Args&&>(args)...);
        }
    };
};
template <int Id, int Values = 0>
struct Mark : lexyd::rule_base
{
    template <typename NextParser>
    struct p
    {
        template <typename Context, typename Reader, typename... Args>
        static bool parse(Context& context, Reader& reader, Args&&...)
        {
            auto cb = context.control_block;
            VP_CHECK("C05", !taken, "two alternatives are taken");
            taken = Id;
            if (Id == 2)
            {
                static_assert(Id != 2 || sizeof...(Args) == Values, "values of a branch that was not taken");
                VP_CHECK("C05", vp::P(reader.position()) == start, "after a branch that was not taken the next one starts at another position");
                VP_CHECK("C05", lg->errors == 0, "a branch that was not taken reported an error");
                VP_CHECK("C05", lg->tok_end == start, "a branch that was not taken left tokens");
                int w, d; const void* v; ctx(cb, w, d, v);
                VP_CHECK("C05", w == ws && d == depth && v == vars, "a branch that was not taken changed the parse context");
            }
            else
                end1 = vp::P(reader.position());
            return NextParser::parse(context, reader);
        }
    };
};
template <typename Rule> struct choice_ { static constexpr auto rule = Before{} + (Rule{} >> Mark<1>{} | dsl::else_ >> Mark<2>{}); };
template <typename Rule> struct opt_ { static constexpr auto rule = Before{} + dsl::if_(Rule{} >> Mark<1>{}) + dsl::eof; };
template <typename Rule> struct plain { static constexpr auto rule = Rule{}; };
// Taken: a rule that succeeds exactly when the branch is to be taken
template <typename Rule, typename Taken, typename Enc = lexy::default_encoding>
void branch(int n, bool same_end)
{
    n += vp::MORE;
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    auto input = vp::tape_input<Enc>();
    vp_cover_decl("taken"); vp_cover_decl("not taken");
    vp::Log a, b;
    bool want = vp::run<plain<Taken>>(input, a) && !a.errors;
    lg = &b; taken = 0; seen = false;
    bool ok = vp::run<choice_<Rule>>(input, b);
    if (want)
    {
        VP_CHECK("C05", taken != 2, "a branch whose condition matches is not taken");
        VP_CHECK("C05", ok || b.errors, "the branch failed without an error");
        if (same_end && taken == 1) VP_CHECK("C05", end1 == a.last, "the condition of a branch consumes something else than the rule");
        vp_cover("taken");
    }
    else
    {
        VP_CHECK("C05", taken == 2 && ok, "a branch whose condition does not match is taken");
        vp_cover("not taken");
    }
}
} // namespace
#define BR(name, n, r) WITNESS(name) { branch<std::remove_cvref_t<decltype(r)>, std::remove_cvref_t<decltype(r)>>(n, true); }
#define BRC(name, n, r, c) WITNESS(name) { branch<std::remove_cvref_t<decltype(r)>, std::remove_cvref_t<decltype(c)>>(n, false); }
#define BRE(name, n, enc, r) WITNESS(name) { branch<std::remove_cvref_t<decltype(r)>, std::remove_cvref_t<decltype(r)>, lexy::enc>(n, true); }
#define A LEXY_LIT("a")
#define B LEXY_LIT("b")
#define ABC LEXY_LIT("abc")
constexpr auto id = dsl::identifier(dsl::ascii::alpha);
// tokens
BR(lit, 4, ABC)
BR(litc, 2, dsl::lit_c<'a'>)
BRE(lit_utf8, 3, utf8_char_encoding, LEXY_LIT("\u00e4a"))
BR(lit_fold, 4, dsl::ascii::case_folding(ABC))
BR(keyword, 4, LEXY_KEYWORD("ab", id))
BR(lits, 4, LEXY_LITERAL_SET(A, LEXY_LIT("ab"), LEXY_LIT("abcd")))
BR(cls, 2, dsl::ascii::alpha)
BRE(cls_minus, 2, ascii_encoding, dsl::ascii::alpha - dsl::lit_c<'x'>)
BR(cls_and, 2, dsl::ascii::alnum & dsl::ascii::upper)
BRE(cp, 4, utf8_encoding, dsl::code_point)
BRE(cpr, 4, utf8_encoding, (dsl::code_point.range<0x80, 0x800>()))
BRE(cps, 3, utf16_encoding, (dsl::code_point.set<0x41, 0x10000>()))
BRE(byte, 2, byte_encoding, dsl::byte.ascii())
BRE(bytes, 3, byte_encoding, dsl::bytes<2>)
BR(digit, 2, dsl::digit<>)
BR(digits, 4, dsl::digits<>)
BR(digits_sep, 5, dsl::digits<>.sep(dsl::digit_sep_tick))
BR(digits_nz, 3, dsl::digits<>.no_leading_zero())
BR(digits_nzs, 4, dsl::digits<>.sep(dsl::digit_sep_tick).no_leading_zero())
BR(ndigits, 4, (dsl::n_digits<2, dsl::hex>))
BR(ndigits_sep, 4, (dsl::n_digits<2>.sep(dsl::digit_sep_tick)))
BR(tok, 4, dsl::token(A + dsl::digits<>))
BR(tok_or, 4, dsl::token(A >> dsl::while_(B) | B >> B))
BR(tok_err, 4, dsl::token(A + dsl::digits<>).error<tag>)
BR(nl, 3, dsl::newline)
BR(eol, 3, dsl::eol)
BR(eof, 2, dsl::eof)
BR(ident, 4, id)
BR(ident_tail, 4, dsl::identifier(dsl::ascii::alpha, dsl::ascii::digit))
BR(ident_res, 4, (id.reserve(LEXY_KEYWORD("ab", id), LEXY_KEYWORD("a", id))))
BR(ident_pre, 4, (id.reserve_prefix(LEXY_LIT("ab"))))
BR(ident_con, 4, (id.reserve_containing(LEXY_LIT("bb"))))
BR(ident_suf, 4, (id.reserve_suffix(LEXY_LIT("ba"))))
BR(ident_two, 4, (id.reserve(LEXY_LIT("ab")).reserve_prefix(LEXY_LIT("b")).reserve(LEXY_LIT("aa"))))
BR(ident_pat, 4, (dsl::identifier(dsl::ascii::alpha, dsl::ascii::alnum).pattern()))
BRE(follow, 3, ascii_encoding, dsl::followed_by(A, dsl::ascii::digit))
BRE(nfollow, 3, ascii_encoding, dsl::not_followed_by(A, dsl::ascii::digit))
// conditions that produce values
constexpr auto table = lexy::symbol_table<int>.map<'a'>(1).map<LEXY_SYMBOL("ab")>(2).map<LEXY_SYMBOL("bcd")>(3);
BR(sym, 4, dsl::symbol<table>)
BR(sym_id, 4, dsl::symbol<table>(id))
BR(sym_tok, 4, dsl::symbol<table>(dsl::token(dsl::ascii::alpha + dsl::ascii::alpha)))
BRC(integer, 5, (dsl::integer<unsigned char>(dsl::digits<>)), dsl::digits<>)
BRC(integer_n, 4, (dsl::integer<unsigned char>(dsl::n_digits<3>)), dsl::n_digits<3>)
BRE(codepoint_id, 4, utf8_encoding, (dsl::code_point_id<2>))
BR(capture, 4, dsl::capture(ABC))
BR(capture_cls, 2, dsl::capture(dsl::ascii::alpha))
BRC(position, 3, dsl::position(A >> B), A)
BR(position_t, 3, dsl::position(ABC))
BRC(parse_as, 3, dsl::parse_as<int>(dsl::integer<int>(dsl::digits<>)), dsl::digits<>)
BRC(nullo, 3, A >> dsl::nullopt, A)
// conditions that look ahead
BRC(peek, 3, dsl::peek(A + B), A + B)
BRC(peek_not, 3, dsl::peek_not(A + B), dsl::peek_not(A + B) + dsl::if_(dsl::peek(A) >> dsl::any))
// composed conditions
struct pa { static constexpr auto rule = A >> B; };
struct pt : lexy::token_production { static constexpr auto rule = ABC; };
struct pr : lexy::transparent_production { static constexpr auto rule = LEXY_LIT("ab") >> A | B >> B; };
struct pl { static constexpr auto rule = dsl::list(LEXY_LIT("ab") >> B, dsl::sep(dsl::comma)); };
struct ptb : lexy::token_production { static constexpr auto rule = LEXY_LIT("ab") >> A | B >> B; };
struct pdeep { static constexpr auto rule = dsl::p<pr> >> A | dsl::p<pt>; };
BRC(prod, 3, dsl::p<pa>, A)
BRC(prod_tok, 4, dsl::p<pt>, ABC)
BRC(prod_tr, 3, dsl::p<pr>, (LEXY_LIT("ab") | B))
BRC(prod_list, 3, dsl::p<pl>, LEXY_LIT("ab"))
BRC(prod_deep, 4, dsl::p<pdeep>, (LEXY_LIT("ab") | B | ABC))
BRC(inline_, 3, dsl::inline_<pa>, A)
BRC(prod_rec, 3, dsl::recurse_branch<pa>, A)
BRC(choice2, 3, (LEXY_LIT("ab") >> A | LEXY_LIT("ac") >> B), (LEXY_LIT("ab") | LEXY_LIT("ac")))
BRC(choice3, 3, ((ABC | LEXY_LIT("ab") >> A) >> B), (ABC | LEXY_LIT("ab")))
BRC(list, 3, dsl::list(LEXY_LIT("ab"), dsl::sep(B)), LEXY_LIT("ab"))
BRC(listb, 3, dsl::list(LEXY_LIT("ab") >> A), LEXY_LIT("ab"))
BRC(try_, 3, dsl::try_(LEXY_LIT("ab") >> A, B), LEXY_LIT("ab"))
BRC(delim, 4, (dsl::delimited(LEXY_LIT("ab"), LEXY_LIT("c"))(dsl::ascii::character)), LEXY_LIT("ab"))
BRC(quoted, 3, dsl::quoted.limit(dsl::ascii::newline)(dsl::ascii::character), dsl::lit_c<'"'>)
BRC(brack, 3, (dsl::brackets(LEXY_LIT("ab"), B)(A)), LEXY_LIT("ab"))
BRC(brack_opt, 3, (dsl::brackets(LEXY_LIT("ab"), B).opt(A)), LEXY_LIT("ab"))
BRC(brack_list, 3, (dsl::brackets(LEXY_LIT("ab"), B).opt_list(A)), LEXY_LIT("ab"))
BRC(nows, 3, dsl::no_whitespace(LEXY_LIT("ab") >> A), LEXY_LIT("ab"))
BRC(capr, 4, dsl::capture(dsl::p<ptb>), (LEXY_LIT("ab") | B))
BRC(opx, 3, dsl::op<1>(LEXY_LIT("ab")), LEXY_LIT("ab"))
// conditions on the context
namespace
{
constexpr auto fl  = dsl::context_flag<struct fltag>;
constexpr auto cnt = dsl::context_counter<struct cnttag>;
constexpr auto cid = dsl::context_identifier<struct cidtag>(id);
template <bool Value>
struct flag_ { static constexpr auto rule = fl.create<false>() + dsl::if_(A >> fl.set()) + Before{} + (std::conditional_t<Value, decltype(fl.is_set()), decltype(fl.is_reset())>{} >> Mark<1>{} | dsl::else_ >> Mark<2>{}); };
struct cnt_ { static constexpr auto rule = cnt.create() + dsl::if_(A >> cnt.inc()) + dsl::if_(B >> cnt.dec()) + Before{} + (cnt.is<0>() >> Mark<1>{} | dsl::else_ >> Mark<2>{}); };
struct cnt1_ { static constexpr auto rule = cnt.create() + dsl::if_(A >> cnt.inc()) + Before{} + (cnt.is<1>() >> Mark<1>{} | dsl::else_ >> Mark<2>{}); };
struct cid_ { static constexpr auto rule = cid.create() + cid.capture() + dsl::lit_c<';'> + Before{} + (cid.rematch() >> Mark<1>{} | dsl::else_ >> Mark<2, 1>{}); };
struct rec_ { static constexpr auto max_recursion_depth = 1; struct in { static constexpr auto rule = A >> dsl::if_(dsl::recurse_branch<rec_>); }; static constexpr auto rule = Before{} + (dsl::p<in> >> Mark<1>{} | dsl::else_ >> Mark<2>{}); };
template <typename Prod, typename Ref>
void context(int n, Ref ref)
{
    n += vp::MORE;
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    vp_tape(1, -1, 0); vp_tape_domain('a', 'c'); vp_tape_domain_add(';', ';');
    auto input = vp::tape_input<lexy::default_encoding>();
    vp_cover_decl("taken"); vp_cover_decl("not taken");
    vp::Log b;
    lg = &b; taken = 0; seen = false;
    auto p = input.reader().position(), e = static_cast<decltype(p)>(vp_tape_end());
    int want = ref(p, e);
    if (want == 0) return;
    bool ok = vp::run<Prod>(input, b);
    VP_CHECK("C05", ok && taken == want, "a condition on the context takes another alternative");
    vp_cover(want == 1 ? "taken" : "not taken");
}
template <typename P> bool eat(P& p, P e, char c) { if (p == e || !vp_split(*p == c)) return false; ++p; return true; }
} // namespace
WITNESS(ctx_flag) { context<flag_<true>>(2, [](auto p, auto e) { return eat(p, e, 'a') ? 1 : 2; }); }
WITNESS(ctx_nflag) { context<flag_<false>>(2, [](auto p, auto e) { return eat(p, e, 'a') ? 2 : 1; }); }
WITNESS(ctx_cnt) { context<cnt_>(3, [](auto p, auto e) { int v = eat(p, e, 'a'); v -= eat(p, e, 'b'); return v == 0 ? 1 : 2; }); }
WITNESS(ctx_cnt1) { context<cnt1_>(2, [](auto p, auto e) { return eat(p, e, 'a') ? 1 : 2; }); }
WITNESS(ctx_id)
{
    context<cid_>(7, [](auto p, auto e) -> int {
        auto b = p;
        while (p != e && vp_split(*p != ';')) ++p;
        auto n = p - b;
        if (n == 0 || p == e) return 0;
        ++p;
        auto c = p;
        while (p != e && vp_split(*p != ';')) ++p;
        if (p - c != n) return 2;
        for (int i = 0; i < n; ++i) if (!vp_split(b[i] == c[i])) return 2;
        return 1;
    });
}
struct look_ { static constexpr auto rule = Before{} + (dsl::lookahead(LEXY_LIT("ab"), LEXY_LIT("c")) >> Mark<1>{} | dsl::else_ >> Mark<2>{}); };
WITNESS(look)
{
    context<look_>(5, [](auto p, auto e) -> int {
        for (; p != e; ++p)
        {
            if (vp_split(*p == 'a') && p + 1 != e && vp_split(p[1] == 'b')) return 1;
            if (vp_split(*p == 'c')) return 2;
        }
        return 2;
    });
}
