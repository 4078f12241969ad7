// Errors: kind, position, range and index as documented.
#include "err.hpp"
using namespace ref;
using vp::Er;
template <typename C> static Er at(int k, const C* p) { return {k, vp::P(p), vp::P(p)}; }
template <typename C> static Er rng(int k, const C* b, const C* e) { return {k, vp::P(b), vp::P(e)}; }
template <typename C> static Er from(int k, const C* p) { return {k, vp::P(p), nullptr}; } // the end of the range is not documented
template <typename Cu> static Er lit(Cu& c, const char* s)
{
    auto b = c;
    for (int i = 0; s[i]; ++i)
        if (!c.eat(static_cast<unsigned char>(s[i])))
        {
            auto at_ = vp::P(b.p);
            return {vp::k_lit, at_, at_, i};
        }
    return {};
}
#define LIT(s) if (auto e_ = lit(c, s); e_.kind) return e_
#define A LEXY_LIT("a")
#define B LEXY_LIT("b")
#define C_ LEXY_LIT("c")

// literals in every encoding and reader
ERR(lit3, 5, LEXY_LIT("abc"), return lit(c, "abc");)
ERR(lit1, 2, A, return lit(c, "a");)
ERRE(lit3_a, ascii, 5, LEXY_LIT("abc"), return lit(c, "abc");)
ERRE(lit3_8, utf8, 5, LEXY_LIT("abc"), return lit(c, "abc");)
ERRE(lit3_16, utf16, 5, LEXY_LIT("abc"), return lit(c, "abc");)
ERRE(lit3_32, utf32, 5, LEXY_LIT("abc"), return lit(c, "abc");)
ERRE(lit3_b, byte, 5, LEXY_LIT("abc"), return lit(c, "abc");)
ERRS(lit3_sa, ascii, 5, LEXY_LIT("abc"), return lit(c, "abc");)
ERRS(lit3_s8, utf8, 5, LEXY_LIT("abc"), return lit(c, "abc");)
ERRS(lit3_s8c, utf8_char, 5, LEXY_LIT("abc"), return lit(c, "abc");)
ERRS(lit3_s32, utf32, 5, LEXY_LIT("abc"), return lit(c, "abc");)
ERRS(lit9_s8, utf8, 11, LEXY_LIT("abcdefghi"), return lit(c, "abcdefghi");)
ERRS(lit9_sa, ascii, 11, LEXY_LIT("abcdefghi"), return lit(c, "abcdefghi");)
ERRS(lit8_s8, utf8, 9, LEXY_LIT("abcdefgh"), return lit(c, "abcdefgh");)
ERRS(lit4_s32, utf32, 5, LEXY_LIT("abcd"), return lit(c, "abcd");)
ERRE(litcp, utf8_char, 6, (dsl::lit_cp<'a', 0x20AC>), return lit(c, "a\xE2\x82\xAC");)
ERR(litb, 3, (dsl::lit_b<1, 2>), return lit(c, "\1\2");)
ERR(litseq, 5, LEXY_LIT("ab") + LEXY_LIT("cd"), LIT("ab"); return lit(c, "cd");)
// case folding: the index counts folded units, each of which is one unit here
ERR(litcase, 4, dsl::ascii::case_folding(LEXY_LIT("abc")), auto b = c.p; const char* s = "abc"; for (int i = 0; i < 3; ++i) if (!c.eat(unsigned(s[i])) && !c.eat(unsigned(s[i] - 32))) { return Er{k_lit, P(b), P(b), i}; } return {};)
ERRS(litcase_s, utf8, 4, dsl::ascii::case_folding(LEXY_LIT("abc")), auto b = c.p; const char* s = "abc"; for (int i = 0; i < 3; ++i) if (!c.eat(unsigned(s[i])) && !c.eat(unsigned(s[i] - 32))) { return Er{k_lit, P(b), P(b), i}; } return {};)

// character classes
ERR(cc, 2, dsl::ascii::alpha, if (c.eat(alpha)) return {}; return at(k_cc, c.p);)
ERR(ccseq, 3, A + dsl::ascii::digit, LIT("a"); if (c.eat(digit)) return {}; return at(k_cc, c.p);)
ERRE(ccneg, ascii, 3, A + -dsl::ascii::digit, LIT("a"); if (c.end() || c.in('0', '9')) return at(k_cc, c.p); return {};)
ERR(ccerr, 3, A + dsl::ascii::digit.error<struct t_cc>, LIT("a"); if (c.eat(digit)) return {}; return at(k_other, c.p);)
ERR(digit, 2, dsl::digit<dsl::octal>, if (c.eat('0', '7')) return {}; return at(k_cc, c.p);)
ERR(ndig, 4, dsl::n_digits<3>, for (int i = 0; i < 3; ++i) if (!c.eat(digit)) return at(k_cc, c.p); return {};)
ERR(digs, 4, dsl::digits<>, if (!c.eat(digit)) return at(k_cc, c.p); return {};)
ERR(digz, 4, dsl::digits<>.no_leading_zero(), auto b = c.p; if (c.eat('0')) { if (c.in('0', '9')) return rng(k_zero, b, b + 1); return {}; } if (!c.eat(digit)) return at(k_cc, c.p); return {};)
ERR(digsep, 5, dsl::digits<>.sep(dsl::digit_sep_tick), if (!c.eat(digit)) return at(k_cc, c.p); while (true) { if (c.eat('\'')) { if (!c.eat(digit)) return at(k_cc, c.p); } else if (!c.eat(digit)) return {}; })
ERR(digzsep, 5, A + dsl::digits<>.no_leading_zero().sep(dsl::digit_sep_tick), LIT("a"); auto b = c.p; bool z = c.is('0'); if (!c.eat(digit)) return at(k_cc, c.p); while (true) { if (c.eat('\'')) { if (!c.eat(digit)) return at(k_cc, c.p); } else if (!c.eat(digit)) break; } if (z && c.p != b + 1) return rng(k_zero, b, b + 1); return {};)

// choices and sets
ERR(choice, 3, A + (LEXY_LIT("bc") | C_), LIT("a"); auto q = c; if (q.lit("bc") || c.eat('c')) return {}; return at(k_choice, c.p);)
ERR(choice2, 4, LEXY_LIT("a") >> B | dsl::ascii::digit >> C_, if (c.eat('a')) return lit(c, "b"); if (c.eat(digit)) return lit(c, "c"); return at(k_choice, c.p);)
ERR(chpeek, 4, A + (dsl::peek(LEXY_LIT("bc")) >> B | C_), LIT("a"); auto q = c; if (q.lit("bc") || c.eat('c')) return {}; return at(k_choice, c.p);)
ERR(lset, 5, A + dsl::literal_set(LEXY_LIT("bc"), LEXY_LIT("bde")), LIT("a"); auto q = c; if (c.lit("bc") || q.lit("bde")) return {}; return at(k_lset, c.p);)
constexpr auto st = lexy::symbol_table<int>.map<LEXY_SYMBOL("bc")>(1).map<LEXY_SYMBOL("bde")>(2).map<LEXY_SYMBOL("b")>(3);
constexpr auto st2 = lexy::symbol_table<int>.map<LEXY_SYMBOL("bc")>(1).map<LEXY_SYMBOL("bde")>(2);
ERR(sym, 5, A + dsl::symbol<st2>, LIT("a"); auto q = c; auto r = c; if (q.lit("bc") || r.lit("bde")) return {}; return at(k_sym, c.p);)
ERR(symtok, 5, A + dsl::symbol<st>(dsl::token(dsl::while_one(dsl::ascii::lower))), LIT("a"); auto b = c; while (c.eat('a', 'z')) {} auto n = c.p - b.p; if (n == 0) return rng(k_missing, b.p, b.p); auto q = b, r = b, s = b; if ((n == 1 && q.lit("b")) || (n == 2 && r.lit("bc")) || (n == 3 && s.lit("bde"))) return {}; return rng(k_sym, b.p, c.p);)
ERR(symid, 5, A + dsl::symbol<st2>(dsl::identifier(dsl::ascii::lower)), LIT("a"); auto b = c; while (c.eat('a', 'z')) {} auto n = c.p - b.p; if (n == 0) return at(k_cc, b.p); auto r = b, s = b; if ((n == 2 && r.lit("bc")) || (n == 3 && s.lit("bde"))) return {}; return rng(k_sym, b.p, c.p);)

// identifiers and keywords
constexpr auto idd = dsl::identifier(dsl::ascii::lower);
constexpr auto kw = LEXY_KEYWORD("bc", idd);
ERR(ident, 3, A + idd, LIT("a"); if (!c.eat('a', 'z')) return at(k_cc, c.p); return {};)
ERR(idres, 5, A + dsl::ascii::digit + idd.reserve(kw), LIT("a"); if (!c.eat(digit)) return at(k_cc, c.p); auto b = c; while (c.eat('a', 'z')) {} auto n = c.p - b.p; if (!n) return at(k_cc, b.p); if (n == 2 && b.lit("bc")) return rng(k_res, c.p - 2, c.p); return {};)
ERR(idresp, 5, dsl::ascii::digit + idd.reserve_prefix(LEXY_LIT("b")), if (!c.eat(digit)) return at(k_cc, c.p); auto b = c; while (c.eat('a', 'z')) {} auto n = c.p - b.p; if (!n) return at(k_cc, b.p); if (b.is('b')) return rng(k_res, b.p, c.p); return {};)
ERR(kw, 5, A + kw, LIT("a"); auto b = c; while (c.eat('a', 'z')) {} auto q = b; if (c.p - b.p == 2 && q.lit("bc")) return {}; return rng(k_kw, b.p, c.p);)

// integers
ERR(int3, 5, A + dsl::integer<int>(dsl::n_digits<3>), LIT("a"); for (int i = 0; i < 3; ++i) if (!c.eat(digit)) return at(k_cc, c.p); return {};)
ERR(int8, 5, (dsl::integer<lexy::bounded<int, 99>>), auto b = c; while (c.eat('0', '9')) {} auto n = c.p - b.p; if (!n) return at(k_cc, b.p); auto q = b; for (int i = 0; i + 2 < n; ++i) if (!q.eat('0')) return rng(k_over, b.p, c.p); return {};)
ERR(intz, 4, (A + dsl::integer<lexy::bounded<int, 99>>(dsl::digits<>.no_leading_zero())), LIT("a"); auto b = c.p; if (c.eat('0')) { if (c.in('0', '9')) return rng(k_zero, b, b + 1); return {}; } while (c.eat('0', '9')) {} if (c.p == b) return at(k_cc, b); if (c.p - b > 2) return rng(k_over, b, c.p); return {};)

// delimited and quoted
static bool print_(unsigned c) { return c >= 0x20 && c <= 0x7E; }
template <typename Cu> static Er quoted(Cu& c)
{
    LIT("\"");
    auto b = c;
    while (true)
    {
        if (c.eat('"')) return {};
        if (c.end()) return rng(vp::k_delim, b.p, c.p);
        if (!c.eat(print_)) return at(vp::k_cc, c.p);
    }
}
ERR(quot, 4, dsl::quoted(dsl::ascii::print), return quoted(c);)
ERR(quota, 4, A + dsl::quoted(dsl::ascii::print), LIT("a"); return quoted(c);)
ERRS(quot_s, ascii, 4, dsl::quoted(dsl::ascii::print), return quoted(c);)
ERR(quottag, 4, dsl::delimited(A, B.error<struct t_q>)(dsl::ascii::print), LIT("a"); auto b = c; while (true) { if (c.eat('b')) return {}; if (c.end()) return rng(k_delim, b.p, c.p); if (!c.eat(print_)) return at(k_cc, c.p); })
ERR(delim2, 5, dsl::delimited(LEXY_LIT("a"), LEXY_LIT("bb"))(dsl::ascii::print), LIT("a"); auto b = c; while (true) { if (c.lit("bb")) return {}; if (c.end()) return rng(k_delim, b.p, c.p); if (!c.eat(print_)) return at(k_cc, c.p); })
ERR(quotlim, 4, dsl::quoted.limit(dsl::ascii::newline)(dsl::ascii::character), LIT("\""); auto b = c; while (true) { if (c.eat('"')) return {}; if (c.end() || c.is('\n') || c.is('\r')) return rng(k_delim, b.p, c.p); if (!c.eat(0, 0x7F)) return at(k_cc, c.p); })
ERR(quottag2, 4, dsl::quoted.limit<struct t_l>(dsl::ascii::newline)(dsl::ascii::character), LIT("\""); auto b = c; while (true) { if (c.eat('"')) return {}; if (c.end() || c.is('\n') || c.is('\r')) return rng(k_other, b.p, c.p); if (!c.eat(0, 0x7F)) return at(k_cc, c.p); })
constexpr auto escs = lexy::symbol_table<char>.map<'n'>('\n').map<'"'>('"');
ERR(quotesc, 5, dsl::quoted(dsl::ascii::print, dsl::backslash_escape.symbol<escs>()), LIT("\""); auto b = c; while (true) { if (c.eat('"')) return {}; if (c.end()) return rng(k_delim, b.p, c.p); if (c.is('\\')) { auto s = c.p; c.any(); if (!c.eat('n') && !c.eat('"')) return rng(k_esc, s, c.p); } else if (!c.eat(print_)) return at(k_cc, c.p); })
ERR(quotesc2, 5, dsl::quoted(dsl::ascii::print, dsl::dollar_escape.rule(dsl::lit_c<'x'> >> dsl::ascii::digit)), LIT("\""); auto b = c; while (true) { if (c.eat('"')) return {}; if (c.end()) return rng(k_delim, b.p, c.p); if (c.is('$')) { auto s = c.p; c.any(); if (!c.eat('x')) return rng(k_esc, s, c.p); if (!c.eat(digit)) return at(k_cc, c.p); } else if (!c.eat(print_)) return at(k_cc, c.p); })

// eof, newline, peek, lookahead, errors
ERR(eof, 2, A + dsl::eof, LIT("a"); if (c.end()) return {}; return at(k_eof, c.p);)
ERR(nl, 3, A + dsl::newline, LIT("a"); if (c.eat('\n') || c.lit("\r\n")) return {}; return at(k_nl, c.p);)
ERR(eol, 3, A + dsl::eol, LIT("a"); if (c.end() || c.eat('\n') || c.lit("\r\n")) return {}; return at(k_nl, c.p);)
ERRS(nl_s, utf8, 3, A + dsl::newline, LIT("a"); if (c.eat('\n') || c.lit("\r\n")) return {}; return at(k_nl, c.p);)
ERR(peek, 3, A + dsl::peek(LEXY_LIT("bc")), LIT("a"); auto q = c; if (q.lit("bc")) return {}; return from(k_peek, c.p);)
ERR(peeknot, 4, A + dsl::peek_not(LEXY_LIT("bc")), LIT("a"); auto q = c; if (!q.lit("bc")) return {}; return rng(k_unexp, c.p, c.p + 2);)
ERR(look, 4, A + dsl::lookahead(C_, B), LIT("a"); for (auto q = c;; q.any()) { if (q.is('c')) return {}; if (q.end() || q.is('b')) return from(k_look, c.p); })
ERR(until, 4, A + dsl::until(LEXY_LIT("bc")), LIT("a"); while (!c.end()) { if (c.lit("bc")) return {}; c.any(); } return Er{k_lit, P(c.p), P(c.p), 0};)
ERR(untilc, 4, A + dsl::until(dsl::ascii::digit), LIT("a"); while (!c.end()) { if (c.eat(digit)) return {}; c.any(); } return at(k_cc, c.p);)
ERRA(errtag, 2, A + dsl::error<struct t_e>, LIT("a"); return at(k_other, c.p);)
ERRA(errrng, 4, A + dsl::error<struct t_e>(dsl::while_(B)), LIT("a"); auto b = c; while (c.eat('b')) {} return rng(k_other, b.p, c.p);)
ERR(errch, 4, A >> B | dsl::error<struct t_e>(LEXY_LIT("cc")), if (c.eat('a')) return lit(c, "b"); auto b = c; if (c.lit("cc")) return rng(k_other, b.p, c.p); return from(k_other, b.p);)
ERR(must, 4, A + dsl::must(B >> C_).error<struct t_m>, LIT("a"); if (c.eat('b')) return lit(c, "c"); return at(k_other, c.p);)
ERR(musterr, 4, A + dsl::must(B >> C_).error<struct t_m>(dsl::while_(C_)), LIT("a"); if (c.eat('b')) return lit(c, "c"); auto b = c; while (c.eat('c')) {} return rng(k_other, b.p, c.p);)
ERR(notfollow, 4, dsl::not_followed_by(LEXY_LIT("ab"), dsl::ascii::lower), LIT("ab"); if (c.in('a', 'z')) return at(k_follow, c.p); return {};)
ERR(tokerr, 4, A + dsl::token(B + dsl::while_(C_) + dsl::ascii::digit), LIT("a"); auto b = c; if (!c.eat('b')) return rng(k_missing, b.p, c.p); while (c.eat('c')) {} if (c.eat(digit)) return {}; return rng(k_missing, b.p, c.p);)
ERR(tokerr2, 4, A + dsl::token(B + C_).error<struct t_t>, LIT("a"); auto b = c; if (c.eat('b') && c.eat('c')) return {}; return rng(k_other, b.p, c.p);)
ERR(literr, 4, A + LEXY_LIT("bc").error<struct t_t>, LIT("a"); auto b = c; if (c.eat('b') && c.eat('c')) return {}; return rng(k_other, b.p, c.p);)
ERRE(cperr, ascii, 3, A + dsl::code_point.error<struct t_t>, LIT("a"); if (c.end()) return at(k_other, c.p); return {};)
ERRE(cpa, ascii, 2, A + dsl::code_point, LIT("a"); if (c.end()) return at(k_cc, c.p); return {};)

// lists, repetitions, terminators
ERR(list, 5, dsl::list(A, dsl::sep(B)), LIT("a"); while (c.is('b')) { auto s = c.p; c.any(); if (!c.eat('a')) return rng(k_trail, s, c.p); } return {};)
ERR(listbr, 5, dsl::list(A >> C_, dsl::sep(B)), auto q = c; LIT("a"); LIT("c"); while (c.is('b')) { auto s = c.p; c.any(); if (!c.eat('a')) { return rng(k_trail, s, c.p); } LIT("c"); } return {};)
ERR(times, 4, dsl::times<3>(A), LIT("a"); LIT("a"); LIT("a"); return {};)
ERR(timess, 6, dsl::times<2>(A, dsl::sep(B)), LIT("a"); LIT("b"); LIT("a"); auto s = c.p; if (c.eat('b')) return rng(k_trail, s, c.p); return {};)
ERR(timest, 6, dsl::twice(A, dsl::trailing_sep(B)), LIT("a"); LIT("b"); LIT("a"); return {};)
ERR(term, 4, dsl::terminator(C_)(A), LIT("a"); return lit(c, "c");)
ERR(termlist, 5, dsl::terminator(C_).list(A, dsl::sep(B)), LIT("a"); while (true) { if (c.eat('c')) return {}; auto s = c.p; if (!c.eat('b')) return Er{k_lit, P(s), P(s), 0}; auto p = c.p; if (c.is('c')) return rng(k_trail, s, p); LIT("a"); })
ERR(brack, 4, dsl::parenthesized(A), LIT("("); LIT("a"); return lit(c, ")");)
ERR(brackl, 5, dsl::round_bracketed.opt_list(A, dsl::sep(B)), LIT("("); if (c.eat(')')) return {}; while (true) { LIT("a"); if (c.eat(')')) return {}; auto s = c.p; if (!c.eat('b')) return Er{k_lit, P(s), P(s), 0}; if (c.is(')')) return rng(k_trail, s, c.p); })
ERR(comb, 5, dsl::combination(A, B), bool a = false; bool b = false; while (!(a && b)) { auto s = c.p; if (c.eat('a')) { if (a) return rng(k_dup, s, c.p); a = true; } else if (c.eat('b')) { if (b) return rng(k_dup, s, c.p); b = true; } else return at(k_choice, s); } return {};)
ERR(combt, 5, dsl::combination(A, B).missing_error<struct t_m>.duplicate_error<struct t_d>, bool a = false; bool b = false; while (!(a && b)) { auto s = c.p; if (c.eat('a')) { if (a) return rng(k_other, s, c.p); a = true; } else if (c.eat('b')) { if (b) return rng(k_other, s, c.p); b = true; } else return at(k_other, s); } return {};)
ERR(pcomb, 5, dsl::partial_combination(A, B), bool a = false; bool b = false; while (true) { auto s = c.p; if (c.eat('a')) { if (a) return rng(k_dup, s, c.p); a = true; } else if (c.eat('b')) { if (b) return rng(k_dup, s, c.p); b = true; } else return {}; if (a && b) return {}; })
enum class Fl { none = 0, a = 1, b = 2 };
constexpr Fl operator|(Fl a, Fl b) { return Fl(int(a) | int(b)); }
constexpr Fl operator&(Fl a, Fl b) { return Fl(int(a) & int(b)); }
constexpr auto fltab = lexy::symbol_table<Fl>.map<'a'>(Fl::a).map<'b'>(Fl::b);
ERR(flags, 5, dsl::flags(dsl::symbol<fltab>), bool a = false; bool b = false; while (true) { auto s = c.p; if (c.eat('a')) { if (a) return rng(k_flag, s, c.p); a = true; } else if (c.eat('b')) { if (b) return rng(k_flag, s, c.p); b = true; } else return {}; })

// context
constexpr auto cnt = dsl::context_counter<struct t_c>;
constexpr auto cnt2 = dsl::context_counter<struct t_c2>;
ERR(counter, 5, cnt.create() + cnt2.create() + dsl::while_(cnt.push(A)) + dsl::while_(cnt2.push(B)) + dsl::equal_counts(cnt, cnt2), int n = 0; while (c.eat('a')) ++n; while (c.eat('b')) --n; if (n) return at(k_uneq, c.p); return {};)
constexpr auto cid = dsl::context_identifier<struct t_i>(idd);
ERR(ctxid, 5, cid.create() + cid.capture() + dsl::colon + cid.rematch(), auto b = c; while (c.eat('a', 'z')) {} auto n = c.p - b.p; if (!n) return at(k_cc, c.p); LIT(":"); auto d = c; while (c.eat('a', 'z')) {} auto m = c.p - d.p; if (!m) return at(k_cc, c.p); if (n != m) return rng(k_diff, d.p, c.p); for (int i = 0; i < n; ++i) if (!vp_split(b.p[i] == d.p[i])) return rng(k_diff, d.p, c.p); return {};)

// productions and recursion: the error lies in the production that was entered
struct inner { static constexpr auto rule = LEXY_LIT("bc"); };
struct outer { static constexpr auto rule = A + dsl::p<inner> + C_; };
ERRP(prod, 5, outer, LIT("a"); LIT("bc"); return lit(c, "c");)
struct rec2
{
    static constexpr auto max_recursion_depth = 2;
    struct in_ { static constexpr auto rule = dsl::parenthesized(dsl::recurse_branch<in_>) | A; };
    static constexpr auto rule = dsl::p<in_>;
};
ERRP(rec, 5, rec2, int d = 0; while (true) { if (c.eat('(')) { if (d == 2) return at(k_depth, c.p); ++d; } else if (c.eat('a')) break; else return at(k_choice, c.p); } while (d--) LIT(")"); return {};)
// whitespace does not move errors
struct wsp { static constexpr auto whitespace = dsl::ascii::space; static constexpr auto rule = A + LEXY_LIT("bc"); };
ERRP(ws, 6, wsp, while (c.eat(' ') || c.eat('\t', '\r')) {} LIT("a"); while (c.eat(' ') || c.eat('\t', '\r')) {} return lit(c, "bc");)
// binary
ERRE(byte1, byte, 2, A + dsl::byte, LIT("a"); if (c.end()) return at(k_cc, c.p); return {};)
ERRE(bytes3, byte, 4, dsl::bytes<3>, for (int i = 0; i < 3; ++i) if (!c.any()) return at(k_cc, c.p); return {};)
ERRE(pad, byte, 4, dsl::padding_bytes<2>, const unsigned char* bad = nullptr; for (int i = 0; i < 2; ++i) { if (c.end()) return at(k_cc, c.p); if (!bad && !c.is(0)) bad = c.p; c.any(); } if (!bad) return {}; return Er{k_lit, P(bad), P(bad), 0};)
