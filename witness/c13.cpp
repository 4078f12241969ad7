// Parse-context state is restored on every exit: what is accepted afterwards shows it.
#define ACC_CODE "C13"
#include "acc.hpp"
#include <lexy/dsl/subgrammar.hpp>
#include <lexy/callback/noop.hpp>
using namespace ref;
#define A LEXY_LIT("a")
#define B LEXY_LIT("b")
#define C LEXY_LIT("c")
#define D LEXY_LIT("d")
#define S LEXY_LIT(";")
static void sp(Ch& c) { while (c.eat(' ')) {} }
// skip to and past the next ; as find(;) recovery does; false at the end
static bool to(Ch& c, unsigned x) { while (!c.is(x)) if (!c.any()) return false; return true; }
struct base { static constexpr auto whitespace = dsl::lit_c<' '>; };
// whitespace skipping is on again after a no_whitespace rule
struct nw1 : base { static constexpr auto rule = dsl::no_whitespace(A + B) + C + D; };
ACCP(nw_ok, 6, nw1, sp(c); if (!c.lit("ab")) return false; sp(c); if (!c.eat('c')) return false; sp(c); if (!c.eat('d')) return false; sp(c); return true;)
struct nw2 : base { static constexpr auto rule = dsl::try_(dsl::no_whitespace(A + B), dsl::find(S)) + S + C + D; };
ACCRP(nw_try, 7, nw2, int e = 0; sp(c); if (c.eat('a') && c.eat('b')) { sp(c); if (!c.eat(';')) return -1; } else { e = 1; if (!to(c, ';')) return -1; c.any(); } sp(c); if (!c.eat('c')) return -1; sp(c); if (!c.eat('d')) return -1; sp(c); return e;)
struct nw3 : base { static constexpr auto rule = dsl::try_(dsl::no_whitespace(A + B)) + C + D; };
ACCRP(nw_try1, 6, nw3, int e = 0; sp(c); if (c.eat('a') && c.eat('b')) {} else e = 1; sp(c); if (!c.eat('c')) return -1; sp(c); if (!c.eat('d')) return -1; sp(c); return e;)
struct nw4 : base { static constexpr auto rule = dsl::try_(dsl::opt(dsl::no_whitespace(A >> B)) + C, dsl::find(S)) + S + D + D; };
ACCRP(nw_br, 7, nw4, int e = 0; sp(c); bool ok = true; if (c.eat('a')) { ok = c.eat('b'); if (ok) sp(c); } if (ok && c.eat('c')) { sp(c); if (!c.eat(';')) return -1; } else { e = 1; if (!to(c, ';')) return -1; c.any(); } sp(c); if (!c.eat('d')) return -1; sp(c); if (!c.eat('d')) return -1; sp(c); return e;)
struct nw5 : base { static constexpr auto rule = dsl::try_(dsl::no_whitespace(A >> B | C >> A), dsl::find(S)) + S + D + D; };
ACCRP(nw_choice, 6, nw5, int e = 0; sp(c); bool ok = c.eat('a') ? c.eat('b') : c.eat('c') && c.eat('a'); if (ok) { sp(c); if (!c.eat(';')) return -1; } else { e = 1; if (!to(c, ';')) return -1; c.any(); } sp(c); if (!c.eat('d')) return -1; sp(c); if (!c.eat('d')) return -1; sp(c); return e;)
// the same for delimited text, which switches whitespace off itself
struct nw6 : base { static constexpr auto rule = dsl::try_(dsl::quoted(dsl::ascii::lower), dsl::find(S)) + S + D + D; };
ACCRP(nw_quot, 7, nw6, int e = 0; sp(c); bool ok = c.eat('"'); if (ok) { auto b = c.p; while (true) { if (c.eat('"')) break; if (c.end()) return -1; if (!c.eat('a', 'z')) { c.any(); if (e < 2) ++e; } } (void)b; sp(c); if (!c.eat(';')) return -1; } else { e = 1; if (!to(c, ';')) return -1; c.any(); } sp(c); if (!c.eat('d')) return -1; sp(c); if (!c.eat('d')) return -1; sp(c); return e;)
// limit reached inside the quotes: the rule fails, the recovery goes on, whitespace is skipped again
struct nw7 : base { static constexpr auto rule = dsl::try_(dsl::quoted.limit(LEXY_ASCII_ONE_OF(";"))(dsl::ascii::lower), dsl::find(S)) + S + D + D; };
ACCRP(nw_quotlim, 7, nw7, int e = 0; sp(c); bool ok = c.eat('"'); if (ok) { while (true) { if (c.eat('"')) { sp(c); if (!c.eat(';')) return -1; break; } if (c.end()) return -1; if (c.is(';')) { if (e < 2) ++e; c.any(); break; } if (!c.eat('a', 'z')) { c.any(); if (e < 2) ++e; } } } else { e = 1; if (!to(c, ';')) return -1; c.any(); } sp(c); if (!c.eat('d')) return -1; sp(c); if (!c.eat('d')) return -1; sp(c); return e;)
// leaving it through break_
struct nw8 : base { static constexpr auto rule = dsl::loop(dsl::no_whitespace(A >> B) | dsl::no_whitespace(C >> dsl::break_)) + D + D; };
ACCP(nw_break, 6, nw8, sp(c); while (true) { if (c.eat('a')) { if (!c.eat('b')) return false; sp(c); } else if (c.eat('c')) break; else return false; } if (!c.eat('d')) return false; sp(c); if (!c.eat('d')) return false; sp(c); return true;)

// context flags
constexpr auto f = dsl::context_flag<struct t_f>;
constexpr auto f2 = dsl::context_flag<struct t_f2>;
struct fin { static constexpr auto rule = f.create() + f.set() + A + B; };
struct fi2 { static constexpr auto rule = f.create<true>() + A + (f.is_set() >> B | dsl::else_ >> C); };
ACC(flag, 4, f.create() + dsl::opt(A >> f.set()) + dsl::opt(B >> f.reset()) + dsl::opt(C >> f.toggle()) + (f.is_set() >> A | dsl::else_ >> B),
    bool v = false; if (c.eat('a')) v = true; if (c.eat('b')) v = false; if (c.eat('c')) v = !v; return c.eat(v ? 'a' : 'b');)
ACC(flag_t, 3, f.create<true>() + dsl::opt(A >> f.toggle()) + (f.is_reset() >> A | dsl::else_ >> B), bool v = true; if (c.eat('a')) v = false; return c.eat(v ? 'b' : 'a');)
ACC(flag_two, 4, f.create() + f2.create<true>() + dsl::opt(A >> f.set()) + dsl::opt(B >> f2.reset()) + (f.is_set() >> A | dsl::else_ >> B) + (f2.is_set() >> A | dsl::else_ >> B),
    bool v = false; bool w = true; if (c.eat('a')) v = true; if (c.eat('b')) w = false; return c.eat(v ? 'a' : 'b') && c.eat(w ? 'a' : 'b');)
// shadowed by an inner production, which ends or fails
ACCR(flag_in, 5, f.create() + dsl::try_(dsl::p<fin>, dsl::find(S)) + S + (f.is_set() >> C | dsl::else_ >> D), int e = 0; if (c.eat('a') && c.eat('b')) { if (!c.eat(';')) return -1; } else { e = 1; if (!to(c, ';')) return -1; c.any(); } return c.eat('d') ? e : -1;)
ACCR(flag_in2, 6, f.create() + dsl::try_(dsl::p<fi2>, dsl::find(S)) + S + (f.is_set() >> C | dsl::else_ >> D), int e = 0; if (c.eat('a') && c.eat('b')) { if (!c.eat(';')) return -1; } else { e = 1; if (!to(c, ';')) return -1; c.any(); } return c.eat('d') ? e : -1;)
struct fset { static constexpr auto rule = A >> f.set() + B | C >> dsl::nullopt; };
// an inner production changes the flag of the outer one; the change stays even if the production fails afterwards
ACCR(flag_chg, 5, f.create() + dsl::try_(dsl::p<fset>, dsl::find(S)) + S + (f.is_set() >> C | dsl::else_ >> D), int e = 0; bool v = false; bool ok; if (c.eat('a')) { v = true; ok = c.eat('b'); } else ok = c.eat('c'); if (ok) { if (!c.eat(';')) return -1; } else { e = 1; if (!to(c, ';')) return -1; c.any(); } return c.eat(v ? 'c' : 'd') ? e : -1;)
// a branch that is not taken does not set it
ACC(flag_br, 4, f.create() + (LEXY_LIT("ab") >> f.set() | dsl::peek(A) >> dsl::nullopt | dsl::else_ >> f.set()) + dsl::opt(A) + (f.is_set() >> C | dsl::else_ >> D), bool v; auto q = c; if (q.lit("ab")) { c = q; v = true; } else v = !c.is('a'); c.eat('a'); return c.eat(v ? 'c' : 'd');)
// the condition does not see a shadowing flag after it is gone
struct fitem { static constexpr auto rule = f.create() + dsl::opt(A >> f.set()) + (f.is_set() >> B | dsl::else_ >> C); };
ACC(flag_list, 5, dsl::list(dsl::p<fitem>, dsl::sep(S)), do { bool v = c.eat('a'); if (!c.eat(v ? 'b' : 'c')) return false; } while (c.eat(';')); return true;)

// counters
constexpr auto n = dsl::context_counter<struct t_n>;
constexpr auto m = dsl::context_counter<struct t_m>;
ACC(count, 5, n.create() + dsl::while_(A >> n.inc()) + dsl::while_(B >> n.dec()) + (n.is_zero() >> C | dsl::else_ >> D), int k = 0; while (c.eat('a')) ++k; while (c.eat('b')) --k; return c.eat(k ? 'd' : 'c');)
ACC(count1, 4, n.create<1>() + dsl::while_(B >> n.dec()) + (n.is_zero() >> C | dsl::else_ >> D), int k = 1; while (c.eat('b')) --k; return c.eat(k ? 'd' : 'c');)
ACC(count_push, 5, n.create() + n.push(dsl::while_(A)) + n.pop(dsl::while_(B)) + (n.is_zero() >> C | dsl::else_ >> D), int k = 0; while (c.eat('a')) ++k; while (c.eat('b')) --k; return c.eat(k ? 'd' : 'c');)
ACC(count_eq, 5, n.create() + m.create() + n.push(dsl::while_(A)) + m.push(dsl::while_(B)) + (dsl::equal_counts(n, m) >> C | dsl::else_ >> D), int k = 0; while (c.eat('a')) ++k; while (c.eat('b')) --k; return c.eat(k ? 'd' : 'c');)
struct nin { static constexpr auto rule = n.create() + n.inc() + A + n.inc() + B; };
ACCR(count_in, 6, n.create() + dsl::try_(dsl::p<nin>, dsl::find(S)) + S + (n.is_zero() >> C | dsl::else_ >> D), int e = 0; if (c.eat('a') && c.eat('b')) { if (!c.eat(';')) return -1; } else { e = 1; if (!to(c, ';')) return -1; c.any(); } return c.eat('c') ? e : -1;)
struct nitem { static constexpr auto rule = n.create() + dsl::while_(A >> n.inc()) + B + (n.is_zero() >> C | dsl::else_ >> D); };
ACC(count_list, 6, dsl::list(dsl::p<nitem>, dsl::sep(S)), do { int k = 0; while (c.eat('a')) ++k; if (!c.eat('b') || !c.eat(k ? 'd' : 'c')) return false; } while (c.eat(';')); return true;)
// a count far beyond what a small integer holds
ACCL(count_long, ascii, 261, "a", false, n.create() + n.push(dsl::while_(A)) + dsl::eof + (n.is_zero() >> dsl::error<struct e_zero> | n.is<200>() >> dsl::error<struct e_200> | dsl::else_ >> dsl::nullopt), int k = 0; while (c.eat('a')) ++k; return k != 0 && k != 200;)

// identifiers
constexpr auto idd = dsl::identifier(LEXY_ASCII_ONE_OF("ab"));
constexpr auto id = dsl::context_identifier<struct t_i>(idd);
static bool same(Ch b, Ch e, Ch& c) { auto d = c; while (c.eat('a', 'b')) {} if (c.p - d.p != e.p - b.p) return false; for (; b.p != e.p; ++b.p, ++d.p) if (!vp_split(*b.p == *d.p)) return false; return true; }
ACC(ident, 4, id.create() + id.capture() + LEXY_LIT(".") + id.rematch(), auto b = c; while (c.eat('a', 'b')) {} auto e = c; return b.p != e.p && c.eat('.') && same(b, e, c);)
// an identifier that was not captured does not match any
ACCR(ident_none, 5, id.create() + dsl::opt(LEXY_LIT(".") >> id.capture()) + S + (id.rematch() >> LEXY_LIT("!") | dsl::else_ >> LEXY_LIT("?")), bool k = c.eat('.'); auto b = c; if (k) while (c.eat('a', 'b')) {} auto e = c; if (k && b.p == e.p) return -1; if (!c.eat(';')) return -1; auto q = c; if (same(b, e, c) && k) return c.eat('!') ? 0 : -1; c = q; return c.eat('?') ? 0 : -1;)
struct iin { static constexpr auto rule = id.create() + id.capture() + LEXY_LIT("!"); };
ACCR(ident_in, 6, id.create() + id.capture() + LEXY_LIT(".") + dsl::try_(dsl::p<iin>, dsl::find(S)) + S + id.rematch(), auto b = c; if (!c.eat('a', 'b')) return -1; while (c.eat('a', 'b')) {} auto e = c; if (!c.eat('.')) return -1; int k = 0; auto q = c; while (c.eat('a', 'b')) {} if (c.p != q.p && c.eat('!')) { if (!c.eat(';')) return -1; } else { k = 1; if (!to(c, ';')) return -1; c.any(); } if (!c.in('a', 'b')) return -1; return same(b, e, c) ? k : k + 1;)

// a subgrammar starts afresh, and leaves the variables of the outer grammar as they were
struct sgf;
LEXY_DECLARE_SUBGRAMMAR(sgf)
struct sgf { using vp_void = int; static constexpr auto rule = f.create() + dsl::opt(A >> f.toggle()) + (f.is_set() >> B | dsl::else_ >> C); static constexpr auto value = lexy::noop; };
LEXY_DEFINE_SUBGRAMMAR(sgf)
constexpr auto sgf_ = dsl::subgrammar<sgf, void>;
ACCR(sub, 5, f.create<true>() + dsl::try_(sgf_, dsl::find(S)) + S + (f.is_set() >> C | dsl::else_ >> D), int e = 0; if (c.eat('a') ? c.eat('b') : c.eat('c')) { if (!c.eat(';')) return -1; } else { e = 1; if (!to(c, ';')) return -1; c.any(); } return c.eat('c') ? e : -1;)
ACC(subn, 6, n.create<2>() + id.create() + id.capture() + S + sgf_ + S + (n.is<2>() >> id.rematch() | dsl::else_ >> LEXY_LIT("!")), auto b = c; while (c.eat('a', 'b')) {} auto e = c; if (b.p == e.p || !c.eat(';')) return false; if (!(c.eat('a') ? c.eat('b') : c.eat('c'))) return false; return c.eat(';') && same(b, e, c);)

// recursion: the level comes back after success, failure and recovery, so later nesting is judged alone
struct r1
{
    static constexpr auto max_recursion_depth = 2;
    struct in { static constexpr auto rule = A | dsl::parenthesized.try_(dsl::recurse<in>); };
    static constexpr auto rule = dsl::list(dsl::p<in>, dsl::sep(S));
};
// one element: e counts the errors (up to 2), false if it fails
static void inc(int& e) { if (e < 2) ++e; }
static bool nest(Ch& c, int d, int max, int& e)
{
    if (c.eat('a')) return true;
    if (!c.eat('(')) { inc(e); return false; }
    if (d == max) inc(e);
    if (d == max || !nest(c, d + 1, max, e))
    {
        if (!to(c, ')')) return false;
    }
    else if (!c.is(')')) { inc(e); return false; }
    return c.eat(')');
}
ACCRP(rec, 9, r1, int e = 0; while (true) { if (!nest(c, 0, 2, e)) return -1; if (!c.eat(';')) return e; if (!c.is('a') && !c.is('(')) { inc(e); return e; } })
struct r2
{
    static constexpr auto max_recursion_depth = 1;
    struct in { static constexpr auto rule = dsl::square_bracketed(dsl::recurse_branch<in>) | A >> B; };
    static constexpr auto rule = dsl::list(dsl::try_(dsl::p<in>, dsl::find(S)), dsl::sep(S));
};
static bool nest2(Ch& c, int d, int max)
{
    if (c.eat('a')) return c.eat('b');
    if (!c.eat('[')) return false;
    if (d == max) return false;
    return nest2(c, d + 1, max) && c.eat(']');
}
ACCRP(rec2, 7, r2, int e = 0; while (true) { if (!nest2(c, 0, 1)) { if (e < 2) ++e; if (!to(c, ';')) return -1; } if (!c.eat(';')) break; if (!c.is('a') && !c.is('[')) { inc(e); break; } } return e;)
