// Compound rules against reference recognisers.
#include "acc.hpp"
using namespace ref;
#define A LEXY_LIT("a")
#define B LEXY_LIT("b")
// identifiers
ACC(id, 5, dsl::identifier(dsl::ascii::alpha, dsl::ascii::alnum), if (!c.eat(alpha)) return false; while (c.eat(alnum)) {} return true;)
ACC(id1, 5, dsl::identifier(dsl::ascii::alpha), if (!c.eat(alpha)) return false; while (c.eat(alpha)) {} return true;)
constexpr auto idd = dsl::identifier(dsl::ascii::lower, dsl::ascii::lower / dsl::digit<>);
static bool lo(unsigned c) { return c >= 'a' && c <= 'z'; }
static bool lod(unsigned c) { return lo(c) || digit(c); }
static bool ident(Ch& c) { if (!c.eat(lo)) return false; while (c.eat(lod)) {} return true; }
ACC(idpat, 5, idd.pattern(), return ident(c);)
ACC(idlead, 3, idd.leading_pattern(), return c.eat(lo);)
ACC(idtrail, 3, idd.trailing_pattern(), return c.eat(lod);)
ACC(idres, 5, idd.reserve(LEXY_KEYWORD("if", idd), LEXY_KEYWORD("do", idd)), auto b = c; if (!ident(c)) return false; auto n = c.p - b.p; auto q = b; if (n == 2 && (q.lit("if") || q.lit("do"))) return false; return true;)
ACC(idresp, 5, idd.reserve_prefix(LEXY_LIT("ab")), auto b = c; if (!ident(c)) return false; if (c.p - b.p >= 2 && b.lit("ab")) return false; return true;)
ACC(idresc, 5, idd.reserve_containing(LEXY_LIT("xy")), auto b = c; if (!ident(c)) return false; for (auto q = b; c.p - q.p >= 2; ++q.p) { auto r = q; if (r.lit("xy")) return false; } return true;)
ACC(idress, 5, idd.reserve_suffix(LEXY_LIT("z1")), auto b = c; if (!ident(c)) return false; if (c.p - b.p >= 2) { Ch q{c.p - 2}; if (q.lit("z1")) return false; } return true;)
constexpr auto kwset = dsl::literal_set(LEXY_LIT("int"), LEXY_LIT("in"));
ACC(idset, 5, idd.reserve(kwset), auto b = c; if (!ident(c)) return false; auto n = c.p - b.p; auto q = b; auto r = b; if (n == 2 && q.lit("in")) return false; if (n == 3 && r.lit("int")) return false; return true;)
constexpr auto kw = LEXY_KEYWORD("if", idd);
ACC(kw, 4, kw, if (!c.lit("if")) return false; return !c.in('a', 'z') && !c.in('0', '9');)
ACC(kwor, 4, kw | A, auto q = c; if (q.lit("if") && !q.in('a', 'z') && !q.in('0', '9')) { c = q; return true; } return c.eat('a');)
ACC(kwid, 4, kw | dsl::else_ >> idd, auto q = c; if (q.lit("if") && !q.in('a', 'z') && !q.in('0', '9')) { c = q; return true; } return ident(c);)
// an identifier as a branch: a reserved one must not match
ACC(idbr, 4, idd.reserve(kw) >> A | LEXY_LIT("if") >> LEXY_LIT("!"), auto b = c; if (ident(c)) { auto q = b; if (c.p - b.p == 2 && q.lit("if")) { c = b; } else return c.eat('a'); } return c.lit("if") && c.eat('!');)

// several kinds of reservation on one identifier: any of them reserves
static bool resd(const Ch& b, const Ch& c)
{
    auto n = c.p - b.p;
    if (auto q = b; n == 1 && q.lit("a")) return true;
    if (auto q = b; n >= 2 && q.lit("ba")) return true;
    for (auto q = b; c.p - q.p >= 2; ++q.p) { auto r = q; if (r.lit("cc")) return true; }
    if (n >= 2) { Ch q{c.p - 2}; if (q.lit("db")) return true; }
    return n == 2 && Ch{b.p}.lit("bb");
}
static bool ad(unsigned c) { return c >= 'a' && c <= 'd'; }
constexpr auto idm = dsl::identifier(LEXY_ASCII_ONE_OF("abcd")).reserve(LEXY_LIT("a")).reserve_prefix(LEXY_LIT("ba")).reserve_containing(LEXY_LIT("cc")).reserve_suffix(LEXY_LIT("db")).reserve(LEXY_LIT("bb"));
ACC(idmany, 4, idm, auto b = c; if (!c.eat(ad)) return false; while (c.eat(ad)) {} return !resd(b, c);)
ACC(idmanybr, 4, idm | dsl::else_ >> LEXY_LIT("a"), auto b = c; if (c.eat(ad)) { while (c.eat(ad)) {} if (!resd(b, c)) return true; } c = b; return c.eat('a');)
constexpr auto idm2 = dsl::identifier(LEXY_ASCII_ONE_OF("abcd")).reserve(dsl::ascii::case_folding(LEXY_LIT("ab"))).reserve(LEXY_LIT("a"), LEXY_LIT("cd"));
ACC(idmany2, 4, idm2 | dsl::else_ >> LEXY_LIT("a"), auto b = c; if (c.eat(ad)) { while (c.eat(ad)) {} auto n = c.p - b.p; if (!(n == 1 && Ch{b.p}.lit("a")) && !(n == 2 && (Ch{b.p}.lit("ab") || Ch{b.p}.lit("cd")))) return true; } c = b; return c.eat('a');)

// delimited
static bool quoted(Ch& c, bool (*f)(unsigned))
{
    if (!c.eat('"')) return false;
    bool ok = true;
    while (!c.eat('"'))
    {
        if (c.end()) return false;
        if (!c.eat(f)) { c.any(); ok = false; }
    }
    return ok;
}
ACC(quot, 5, dsl::quoted(dsl::ascii::print), return quoted(c, print);)
ACCE(quotc, ascii, 5, dsl::quoted(-dsl::ascii::control), return quoted(c, print);)
static bool pct(unsigned c) { return print(c) || c == 0x82; }
ACC(quotb, 5, dsl::quoted(dsl::ascii::print / dsl::lit_b<0x82>), return quoted(c, pct);)
ACC(quotbr, 5, dsl::quoted(dsl::ascii::print) | A, if (c.eat('a')) return true; return quoted(c, print);)
ACC(quotlim, 5, dsl::quoted.limit(dsl::ascii::newline)(dsl::ascii::print),
    if (!c.eat('"')) return false; bool ok = true;
    while (!c.eat('"')) { if (c.end() || c.is('\n') || c.is('\r')) return false; if (!c.eat(print)) { c.any(); ok = false; } } return ok;)
constexpr auto escs = lexy::symbol_table<char>.map<'n'>('\n').map<'"'>('"');
ACC(quotesc, 6, dsl::quoted(dsl::ascii::print, dsl::backslash_escape.symbol<escs>()),
    if (!c.eat('"')) return false; bool ok = true;
    while (!c.eat('"')) {
        if (c.end()) return false;
        if (c.eat('\\')) { if (!c.eat('n') && !c.eat('"')) ok = false; }
        else if (!c.eat(print)) { c.any(); ok = false; } } return ok;)
ACC(quotesc2, 6, dsl::single_quoted(dsl::ascii::print, dsl::dollar_escape.rule(dsl::lit_c<'x'> >> dsl::digit<>).capture(dsl::ascii::lower), dsl::backslash_escape.capture(dsl::ascii::character)),
    if (!c.eat('\'')) return false; bool ok = true;
    while (!c.eat('\'')) {
        if (c.end()) return false;
        if (c.eat('$')) { if (c.eat('x')) { if (!c.eat(digit)) ok = false; } else if (!c.eat(lo)) ok = false; }
        else if (c.eat('\\')) { if (!c.eat(0, 0x7F)) ok = false; }
        else if (!c.eat(print)) { c.any(); ok = false; } } return ok;)
ACC(triple, 8, dsl::triple_quoted(dsl::ascii::print), if (!c.lit("\"\"\"")) return false; bool ok = true;
    while (!c.lit("\"\"\"")) { if (c.end()) return false; if (!c.eat(print)) { c.any(); ok = false; } } return ok;)
ACC(comm, 7, dsl::delimited(LEXY_LIT("/*"), LEXY_LIT("*/"))(dsl::ascii::character), if (!c.lit("/*")) return false; bool ok = true;
    while (!c.lit("*/")) { if (c.end()) return false; if (!c.eat(0, 0x7F)) { c.any(); ok = false; } } return ok;)
ACCS(quot_swar, utf8_char, 10, dsl::quoted(dsl::ascii::print), if (!c.eat('"')) return false; bool ok = true;
    while (!c.eat('"')) { if (c.end()) return false; if (!c.eat(print)) { c.any(); ok = false; } } return ok;)
// until
ACC(until1, 4, dsl::until(dsl::semicolon), while (!c.eat(';')) if (!c.any()) return false; return true;)
ACC(until2, 6, dsl::until(LEXY_LIT("*/")), while (!c.lit("*/")) if (!c.any()) return false; return true;)
ACC(until3, 6, dsl::until(LEXY_LIT("aab")), while (!c.lit("aab")) if (!c.any()) return false; return true;)
ACC(untilnl, 5, dsl::until(dsl::newline), while (!c.eat('\n') && !c.lit("\r\n")) if (!c.any()) return false; return true;)
ACC(untilset, 5, dsl::until(dsl::literal_set(LEXY_LIT("ab"), LEXY_LIT("a"), LEXY_LIT("xyz"))), while (!c.lit("ab") && !c.eat('a') && !c.lit("xyz")) if (!c.any()) return false; return true;)
struct p_untileof { static constexpr auto rule = dsl::until(LEXY_LIT("ab")).or_eof(); };
WITNESS(untileof) { vp::accept<p_untileof, lexy::default_encoding, true>(4, [](Ch& c) { while (!c.lit("ab")) if (!c.any()) return true; return true; }); }
struct p_untileof_swar : p_untileof {};
ACCS(until_swar, utf8_char, 10, dsl::until(dsl::semicolon), while (!c.eat(';')) if (!c.any()) return false; return true;)
ACCS(until2_swar, utf8_char, 10, dsl::until(LEXY_LIT("ab")), while (!c.lit("ab")) if (!c.any()) return false; return true;)
WITNESS(untileof_swar) { vp::accept_swar<p_untileof, lexy::utf8_char_encoding, true>(10, [](Ch& c) { while (!c.lit("ab")) if (!c.any()) return true; return true; }); }
ACCL(until_long, utf8_char, 20, "a;", false, dsl::until(dsl::semicolon), while (!c.eat(';')) if (!c.any()) return false; return true;)
ACCL(untilnl_long, utf8_char, 20, "\na", false, dsl::until(dsl::newline), while (!c.eat('\n')) if (!c.any()) return false; return true;)
ACCL(untilnl_long2, utf8, 12, "\n\ra", false, dsl::until(dsl::newline), while (!c.eat('\n') && !c.lit("\r\n")) if (!c.any()) return false; return true;)
ACCL(untileol_long, ascii, 12, "\n\ra", true, dsl::until(dsl::newline).or_eof(), while (!c.eat('\n') && !c.lit("\r\n")) if (!c.any()) return true; return true;)
ACCL(quot_long, utf8_char, 20, "\"a", false, dsl::quoted(dsl::ascii::print), if (!c.eat('"')) return false; while (!c.eat('"')) { if (!c.any()) return false; } return true;)
constexpr auto escl = lexy::symbol_table<char>.map<'a'>('a');
ACCL(quotesc_long, utf8_char, 13, "\"\\a", false, dsl::quoted(dsl::ascii::print, dsl::backslash_escape.symbol<escl>()), if (!c.eat('"')) return false; bool ok = true; while (!c.eat('"')) { if (c.end()) return false; if (c.eat('\\')) { if (!c.eat('a')) ok = false; } else c.any(); } return ok;)
ACCL(id_long, utf8_char, 20, "a-", false, dsl::identifier(dsl::ascii::alpha), if (!c.eat('a')) return false; while (c.eat('a')) {} return true;)
ACCL(id2_long, ascii, 12, "a1_", false, dsl::identifier(dsl::ascii::alpha, dsl::ascii::alnum), if (!c.eat('a')) return false; while (c.eat('a') || c.eat('1')) {} return true;)
ACCL(digits_long, utf8_char, 20, "1a", false, dsl::digits<>, if (!c.eat('1')) return false; while (c.eat('1')) {} return true;)
ACCL(digitsx_long, utf8, 12, "1ag", false, dsl::digits<dsl::hex>, if (!c.eat('1') && !c.eat('a')) return false; while (c.eat('1') || c.eat('a')) {} return true;)
ACCL(digitsz_long, utf8_char, 14, "01a", false, dsl::digits<>.no_leading_zero(), if (c.eat('0')) return !c.is('0') && !c.is('1'); if (!c.eat('1')) return false; while (c.eat('1') || c.eat('0')) {} return true;)
ACCL(any_long, utf8_char, 20, "a", true, dsl::any, while (c.any()) {} return true;)
ACCL(while_long, utf8_char, 20, "a-", true, dsl::while_(dsl::ascii::lower), while (c.eat('a')) {} return true;)
ACCL(sep_long, utf8_char, 12, "1_a", false, dsl::digits<>.sep(dsl::digit_sep_underscore), if (!c.eat('1')) return false; while (true) { if (c.eat('_')) { if (!c.eat('1')) return false; } else if (!c.eat('1')) return true; })
// the words of wider encodings hold two code units
ACCL(digits_32, utf32, 8, "1a", false, dsl::digits<>, if (!c.eat('1')) return false; while (c.eat('1')) {} return true;)
ACCL(sepz_long, utf8_char, 12, "1_", false, dsl::digits<>.sep(dsl::digit_sep_underscore).no_leading_zero(), auto b = c; if (!c.eat('0') && !c.eat('1')) return false; while (true) { if (c.eat('_')) { if (!c.eat('1') && !c.eat('0')) return false; } else if (!c.eat('1') && !c.eat('0')) break; } return !b.is('0') || c.p - b.p == 1;)
ACCL(untilnl_32, utf32, 7, "\n\ra", false, dsl::until(dsl::newline), while (!c.eat('\n') && !c.lit("\r\n")) if (!c.any()) return false; return true;)
ACCL(quot_32, utf32, 8, "\"a", false, dsl::quoted(dsl::ascii::print), if (!c.eat('"')) return false; while (!c.eat('"')) { if (!c.any()) return false; } return true;)
ACCL(id_32, utf32, 8, "a-", false, dsl::identifier(dsl::ascii::alpha), if (!c.eat('a')) return false; while (c.eat('a')) {} return true;)
ACCL(any_32, utf32, 8, "a", true, dsl::any, while (c.any()) {} return true;)
ACCS(digits_s32, utf32, 4, dsl::digits<>, if (!c.eat(digit)) return false; while (c.eat(digit)) {} return true;)
ACCS(lit_s32, utf32, 6, LEXY_LIT("abcde"), return c.lit("abcde");)
// newline, eol, eof, any
ACC(nl, 3, dsl::newline, return c.eat('\n') || c.lit("\r\n");)
ACC(eol, 3, dsl::eol, return c.end() || c.eat('\n') || c.lit("\r\n");)
ACC(eolbr, 3, dsl::eol | A, return c.end() || c.eat('\n') || c.lit("\r\n") || c.eat('a');)
ACC(eolseq, 3, A + dsl::eol, return c.eat('a') && (c.end() || c.eat('\n') || c.lit("\r\n"));)
ACC(eof, 2, dsl::eof, return c.end();)
ACC(eofbr, 2, dsl::eof | A, return c.end() || c.eat('a');)
struct p_any { static constexpr auto rule = dsl::any; };
WITNESS(any) { vp::accept<p_any, lexy::default_encoding, true>(4, [](Ch& c) { while (c.any()) {} return true; }); }
// digits
static bool odig(unsigned c) { return c >= '0' && c <= '7'; }
static bool digs(Ch& c, bool (*f)(unsigned), unsigned sep, bool nolead)
{
    auto b = c;
    if (!c.eat(f)) return false;
    if (nolead && b.is('0'))
    { // a leading zero is an error if another digit or separator follows
        if (!c.end() && vp_split(f(c.peek()))) return false;
        if (sep && c.is(sep)) return false;
        return true;
    }
    while (true)
    {
        if (sep && c.is(sep)) { c.any(); if (!c.eat(f)) return false; continue; }
        if (!c.eat(f)) return true;
    }
}
ACC(digit, 3, dsl::digit<>, return c.eat(digit);)
ACC(digit16, 3, dsl::digit<dsl::hex>, return c.eat(xdigit);)
static bool bin(unsigned c) { return c == '0' || c == '1'; }
static bool hexl(unsigned c) { return digit(c) || (c >= 'a' && c <= 'f'); }
static bool hexu(unsigned c) { return digit(c) || (c >= 'A' && c <= 'F'); }
ACC(digit2, 3, dsl::digit<dsl::binary>, return c.eat(bin);)
ACC(digit8, 3, dsl::digit<dsl::octal>, return c.eat(odig);)
ACC(digit16l, 3, dsl::digit<dsl::hex_lower>, return c.eat(hexl);)
ACC(digit16u, 3, dsl::digit<dsl::hex_upper>, return c.eat(hexu);)
ACC(zero, 2, dsl::zero, return c.eat('0');)
ACC(digits, 4, dsl::digits<>, return digs(c, digit, 0, false);)
ACC(digits8, 4, dsl::digits<dsl::octal>, return digs(c, odig, 0, false);)
ACC(digitsep, 5, dsl::digits<>.sep(dsl::digit_sep_underscore), return digs(c, digit, '_', false);)
ACC(digitsnl, 4, dsl::digits<>.no_leading_zero(), return digs(c, digit, 0, true);)
ACC(digitsepnl, 5, dsl::digits<>.sep(dsl::digit_sep_tick).no_leading_zero(), return digs(c, digit, '\'', true);)
ACC(digitsep16nl, 4, dsl::digits<dsl::hex>.sep(dsl::digit_sep_tick).no_leading_zero(), return digs(c, xdigit, '\'', true);)
ACC(ndig, 5, dsl::n_digits<3>, return c.eat(digit) && c.eat(digit) && c.eat(digit);)
ACC(ndigsep, 6, (dsl::n_digits<3, dsl::octal>.sep(dsl::digit_sep_tick)), if (!c.eat(odig)) return false; for (int i = 0; i < 2; ++i) { c.eat('\''); if (!c.eat(odig)) return false; } return true;)
// repetition
ACC(times3, 5, dsl::times<3>(A), return c.eat('a') && c.eat('a') && c.eat('a');)
ACC(times0, 3, dsl::times<1>(A), return c.eat('a');)
ACC(twice, 4, dsl::twice(A), return c.eat('a') && c.eat('a');)
ACC(timessep, 6, dsl::times<3>(A, dsl::sep(dsl::comma)), return c.lit("a,a,a") && !c.is(',');)
ACC(timestsep, 6, dsl::times<2>(A, dsl::trailing_sep(dsl::comma)), if (!c.lit("a,a")) return false; c.eat(','); return true;)
ACC(timesisep, 6, dsl::times<2>(A, dsl::ignore_trailing_sep(dsl::comma)), return c.lit("a,a");)
ACCA(while_, 4, dsl::while_(A), while (c.eat('a')) {} return true;)
ACC(whilecc, 4, dsl::while_(dsl::ascii::alpha) + dsl::lit_c<'!'>, while (c.eat(alpha)) {} return c.eat('!');)
ACC(whileone, 4, dsl::while_one(dsl::ascii::digit), if (!c.eat(digit)) return false; while (c.eat(digit)) {} return true;)
ACC(whilebr, 5, dsl::while_(A >> B), while (c.eat('a')) if (!c.eat('b')) return false; return true;)
ACC(dowhile, 5, dsl::do_while(dsl::digit<>, A), do { if (!c.eat(digit)) return false; } while (c.eat('a')); return true;)
ACC(dowhile2, 6, dsl::do_while(dsl::digit<>, A >> B), while (true) { if (!c.eat(digit)) return false; if (!c.eat('a')) return true; if (!c.eat('b')) return false; })
ACC(loop, 5, dsl::loop(A >> B | LEXY_LIT(".") >> dsl::break_), while (true) { if (c.eat('a')) { if (!c.eat('b')) return false; } else return c.eat('.'); })
ACCA(whileswitch, 4, dsl::while_(A | B), while (c.eat('a') || c.eat('b')) {} return true;)
ACCSA(while_swar, utf8_char, 11, dsl::while_(dsl::ascii::lower), while (c.eat('a', 'z')) {} return true;)
// lists
ACC(list, 4, dsl::list(A), if (!c.eat('a')) return false; while (c.eat('a')) {} return true;)
ACC(listb, 5, dsl::list(A >> B), if (!c.lit("ab")) return false; while (c.eat('a')) if (!c.eat('b')) return false; return true;)
ACCR(lists, 5, dsl::list(A, dsl::sep(dsl::comma)), if (!c.eat('a')) return -1; while (c.eat(',')) if (!c.eat('a')) return 1; return 0;)
ACCR(listsn, 5, dsl::list(dsl::position + A, dsl::sep(dsl::comma)), if (!c.eat('a')) return -1; while (c.eat(',')) if (!c.eat('a')) return -1; return 0;)
ACCR(listt, 5, dsl::list(A, dsl::trailing_sep(dsl::comma)), if (!c.eat('a')) return -1; while (c.eat(',')) if (!c.eat('a')) break; return 0;)
ACCR(listsb, 5, dsl::list(A, dsl::sep(dsl::comma >> dsl::lit_c<'+'>)), if (!c.eat('a')) return -1; while (c.eat(',')) { if (!c.eat('+')) return -1; if (!c.eat('a')) return 1; } return 0;)
ACC(listor, 4, dsl::list(A) | B, if (c.eat('b')) return true; if (!c.eat('a')) return false; while (c.eat('a')) {} return true;)
ACC(optlist, 4, dsl::opt(dsl::list(A, dsl::sep(dsl::comma))) + B, if (c.eat('a')) { while (c.eat(',')) if (!c.eat('a')) return false; } return c.eat('b');)
// terminator
constexpr auto T = dsl::terminator(dsl::semicolon);
static bool skip_to(Ch& c, unsigned t) { while (!c.is(t)) if (!c.any()) return false; return true; }
ACC(term, 4, T(A + B), return c.lit("ab;");)
ACC(termbr, 4, T(A >> B) | LEXY_LIT("c"), return c.lit("ab;") || c.eat('c');)
ACCR(termtry, 4, T.try_(A + B), if (c.lit("ab")) return c.eat(';') ? 0 : -1; c.eat('a'); if (!skip_to(c, ';')) return -1; c.eat(';'); return 1;)
ACCR(termlim, 4, T.limit(dsl::lit_c<'.'>).try_(A), if (c.eat('a')) return c.eat(';') ? 0 : -1; while (!c.eat(';')) if (c.is('.') || !c.any()) return -1; return 1;)
ACCR(termopt, 4, T.opt(A), if (c.eat(';')) return 0; if (c.eat('a')) return c.eat(';') ? 0 : -1; if (!skip_to(c, ';')) return -1; c.eat(';'); return 1;)
// list with terminator: step numbers as in the documentation
static int tlist(Ch& c, bool sep, bool trailing, bool branch)
{
    int err = 0;
    enum { Item, Loop, AfterSep, Recover } st = Item;
    auto bump = [&] { if (err < 2) ++err; };
    while (true)
    {
        if (st == Item) { if (c.eat('a')) st = Loop; else { bump(); st = Recover; } }
        else if (st == Loop)
        {
            if (c.eat(';')) return err;
            if (!sep) { st = Item; continue; }
            if (c.eat(',')) { st = AfterSep; continue; }
            bump();
            // a missing separator: continues with the item if there is one
            if (branch && c.eat('a')) st = Loop;
            else st = branch ? Recover : Item;
        }
        else if (st == AfterSep) { auto q = c; if (c.eat(';')) { if (!trailing) bump(); return err; } st = Item; }
        else
        {
            while (true)
            {
                if (sep && c.eat(',')) { st = AfterSep; break; }
                if (!sep && branch && c.eat('a')) { st = Loop; break; }
                if (c.eat(';')) return err;
                if (!c.any()) return -1;
            }
        }
    }
}
ACCR(tlist, 5, T.list(A), return tlist(c, false, false, true);)
ACCR(tlists, 5, T.list(A, dsl::sep(dsl::comma)), return tlist(c, true, false, true);)
ACCR(tlistt, 5, T.list(A, dsl::trailing_sep(dsl::comma)), return tlist(c, true, true, true);)
ACCR(toptlist, 5, T.opt_list(A, dsl::sep(dsl::comma)), if (c.eat(';')) return 0; return tlist(c, true, false, true);)
ACCR(toptlistt, 5, T.opt_list(A, dsl::trailing_sep(dsl::comma)), if (c.eat(';')) return 0; return tlist(c, true, true, true);)
// brackets
ACC(brk, 4, dsl::parenthesized(A), return c.lit("(a)");)
ACCR(brkopt, 4, dsl::square_bracketed.opt(A), if (!c.eat('[')) return -1; if (c.eat(']')) return 0; if (c.eat('a')) return c.eat(']') ? 0 : -1; while (!c.eat(']')) if (!c.any()) return -1; return 1;)
ACC(brkor, 4, dsl::curly_bracketed(A) | B, return c.lit("{a}") || c.eat('b');)
ACCR(brkas, 4, dsl::angle_bracketed.try_(A), if (!c.eat('<')) return -1; if (c.eat('a')) return c.eat('>') ? 0 : -1; while (!c.eat('>')) if (!c.any()) return -1; return 1;)
// choice, option, branches
ACC(choice, 4, LEXY_LIT("ab") | LEXY_LIT("a") >> LEXY_LIT("c") | B, if (c.lit("ab")) return true; if (c.eat('a')) return c.eat('c'); return c.eat('b');)
ACC(choiceelse, 4, A >> B | LEXY_LIT("c") | dsl::else_ >> LEXY_LIT("d"), if (c.eat('a')) return c.eat('b'); return c.eat('c') || c.eat('d');)
ACC(opt, 3, dsl::opt(A >> B) + LEXY_LIT("c"), if (c.eat('a') && !c.eat('b')) return false; return c.eat('c');)
ACC(optbr, 3, dsl::if_(A >> B) + LEXY_LIT("c"), if (c.eat('a') && !c.eat('b')) return false; return c.eat('c');)
ACC(peek, 4, dsl::peek(A + B) >> A + dsl::ascii::character | LEXY_LIT("ac"), auto q = c; if (q.lit("ab")) { c.any(); c.any(); return true; } return c.lit("ac");)
ACC(peeknot, 4, dsl::peek_not(LEXY_LIT("ab")) >> A | LEXY_LIT("ab"), auto q = c; if (!q.lit("ab")) return c.eat('a'); return c.lit("ab");)
ACC(lookah, 5, dsl::lookahead(LEXY_LIT("!"), LEXY_LIT("\n")) >> dsl::while_(A) | B, bool found = false; for (auto q = c; !q.end(); q.any()) { if (q.is('!')) { found = true; break; } if (q.is('\n')) break; } if (found) { while (c.eat('a')) {} return true; } return c.eat('b');)
ACCE(follow, ascii, 3, dsl::followed_by(A, dsl::digit<>), if (!c.eat('a')) return false; return c.end() || c.in('0', '9');)
ACCE(notfollow, ascii, 3, dsl::not_followed_by(A, dsl::digit<>), if (!c.eat('a')) return false; return !c.in('0', '9');)
ACCE(notfollowbr, ascii, 3, dsl::not_followed_by(A, dsl::digit<>) | A, if (!c.eat('a')) return false; return true;)
ACC(token, 4, dsl::token(A + dsl::while_(dsl::digit<>) + B), if (!c.eat('a')) return false; while (c.eat(digit)) {} return c.eat('b');)
ACC(tokenbr, 4, dsl::token(A + B) | dsl::token(A + LEXY_LIT("c")), return c.lit("ab") || c.lit("ac");)
ACC(combi, 4, dsl::combination(A, B), if (c.lit("ab") || c.lit("ba")) return true; return false;)
ACC(combi3, 4, dsl::combination(A, B, LEXY_LIT("c")), return c.lit("abc") || c.lit("acb") || c.lit("bac") || c.lit("bca") || c.lit("cab") || c.lit("cba");)
ACCR(combip, 4, dsl::partial_combination(A, B), int a = 0; int b = 0; int e = 0; while (!(a && b)) { if (c.eat('a')) { if (a) ++e; a = 1; } else if (c.eat('b')) { if (b) ++e; b = 1; } else break; } return e;)
ACCR(combid, 4, dsl::combination(A, B), int a = 0; int b = 0; int e = 0; while (!(a && b)) { if (c.eat('a')) { if (a) ++e; a = 1; } else if (c.eat('b')) { if (b) ++e; b = 1; } else return -1; } return e;)
ACC(sign, 3, dsl::sign + A, if (!c.eat('+')) c.eat('-'); return c.eat('a');)
ACC(minus, 3, dsl::minus_sign + A, c.eat('-'); return c.eat('a');)
ACC(plus, 3, dsl::plus_sign + A, c.eat('+'); return c.eat('a');)
ACCE(bom8, byte, 5, dsl::opt(dsl::bom<lexy::utf8_encoding, lexy::encoding_endianness::little>) + A, auto q = c; if (q.eat(0xEF) && q.eat(0xBB) && q.eat(0xBF)) c = q; return c.eat('a');)
ACCE(bom16, byte, 4, (dsl::bom<lexy::utf16_encoding, lexy::encoding_endianness::little>) | (dsl::bom<lexy::utf16_encoding, lexy::encoding_endianness::big>), auto q = c; if (q.eat(0xFF) && q.eat(0xFE)) { c = q; return true; } return c.eat(0xFE) && c.eat(0xFF);)
ACCE(bom32, byte, 5, (dsl::bom<lexy::utf32_encoding, lexy::encoding_endianness::little>) | (dsl::bom<lexy::utf32_encoding, lexy::encoding_endianness::big>), auto q = c; if (q.eat(0xFF) && q.eat(0xFE) && q.eat(0u) && q.eat(0u)) { c = q; return true; } return c.eat(0u) && c.eat(0u) && c.eat(0xFE) && c.eat(0xFF);)
// recovery
ACCR(tryrec, 4, dsl::try_(A + B, dsl::find(dsl::semicolon).limit(dsl::lit_c<'.'>)) + dsl::semicolon, auto q = c; if (q.lit("ab")) { c = q; return c.eat(';') ? 0 : -1; } if (c.eat('a')) {} while (!c.is(';')) if (c.is('.') || !c.any()) return -1; c.eat(';'); return 1;)
ACCR(tryrecov, 4, dsl::try_(A + B, dsl::recover(dsl::semicolon, dsl::lit_c<'!'> >> dsl::lit_c<'?'>)) + A, auto q = c; if (q.lit("ab")) { c = q; return c.eat('a') ? 0 : -1; } if (c.eat('a')) {} while (true) { if (c.eat(';')) break; if (c.eat('!')) { if (!c.eat('?')) return -1; break; } if (!c.any()) return -1; } return c.eat('a') ? 1 : -1;)
ACCR(tryskip, 3, dsl::try_(A) + B, int e = c.eat('a') ? 0 : 1; return c.eat('b') ? e : -1;)
// a grammar inside of the grammar
struct sg;
LEXY_DECLARE_SUBGRAMMAR(sg)
struct sg { using vp_void = int; static constexpr auto rule = LEXY_LIT("a") + dsl::if_(LEXY_LIT("b") >> LEXY_LIT("c")); };
LEXY_DEFINE_SUBGRAMMAR(sg)
constexpr auto sg_ = dsl::subgrammar<sg, void>;
ACC(subg, 5, sg_ + LEXY_LIT("d"), if (!c.eat('a')) return false; if (c.eat('b') && !c.eat('c')) return false; return c.eat('d');)
