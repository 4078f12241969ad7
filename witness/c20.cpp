// Automatic whitespace: where it is skipped and where it is not.
#define ACC_CODE "C20"
#include "acc.hpp"
#include <lexy/dsl/subgrammar.hpp>
using namespace ref;
#define A LEXY_LIT("a")
#define B LEXY_LIT("b")
#define C LEXY_LIT("c")
#define S LEXY_LIT(";")
static void sp(Ch& c) { while (c.eat(' ')) {} }
static bool tk(Ch& c, const char* s) { if (!c.lit(s)) return false; sp(c); return true; }
struct base { static constexpr auto whitespace = dsl::lit_c<' '>; };
#define WS(name, n, rule_, ...) struct p_##name : base { static constexpr auto rule = rule_; }; ACCP(name, n, p_##name, sp(c); __VA_ARGS__)
#define WSR(name, n, rule_, ...) struct p_##name : base { static constexpr auto rule = rule_; }; ACCRP(name, n, p_##name, sp(c); __VA_ARGS__)
// after every token, at the start of the grammar
WS(seq, 6, A + B + C, return tk(c, "a") && tk(c, "b") && tk(c, "c");)
WS(lit, 5, LEXY_LIT("ab") + C, return tk(c, "ab") && tk(c, "c");)
WS(digits, 5, dsl::digits<> + A, if (!c.eat(digit)) return false; while (c.eat(digit)) {} sp(c); return tk(c, "a");)
WS(integer, 5, dsl::integer<int> + A, if (!c.eat(digit)) return false; while (c.eat(digit)) {} sp(c); return tk(c, "a");)
WS(sign, 5, dsl::sign + dsl::integer<int> + A, if (c.eat('+') || c.eat('-')) sp(c); if (!c.eat(digit)) return false; while (c.eat(digit)) {} sp(c); return tk(c, "a");)
WS(ident, 5, dsl::identifier(LEXY_ASCII_ONE_OF("xy")) + A, if (!c.eat('x', 'y')) return false; while (c.eat('x', 'y')) {} sp(c); return tk(c, "a");)
constexpr auto idd = dsl::identifier(LEXY_ASCII_ONE_OF("xy"));
WS(keyword, 6, LEXY_KEYWORD("xy", idd) + A, if (!c.lit("xy") || c.in('x', 'y')) return false; sp(c); return tk(c, "a");)
WS(idres, 6, idd.reserve(LEXY_KEYWORD("xy", idd)) + A, auto b = c; if (!c.eat('x', 'y')) return false; while (c.eat('x', 'y')) {} auto q = b; if (c.p - b.p == 2 && q.lit("xy")) return false; sp(c); return tk(c, "a");)
WS(quoted, 7, dsl::quoted(dsl::ascii::print) + A, if (!c.eat('"')) return false; while (!c.eat('"')) { if (!c.eat(print)) return false; } sp(c); return tk(c, "a");)
WS(quotesc, 7, dsl::quoted(dsl::ascii::print, dsl::backslash_escape.rule(A)) + B, if (!c.eat('"')) return false; while (!c.eat('"')) { if (c.eat('\\')) { if (!c.eat('a')) return false; } else if (!c.eat(print)) return false; } sp(c); return tk(c, "b");)
WS(cap, 6, dsl::capture(A) + dsl::capture(dsl::token(B + C)), return tk(c, "a") && tk(c, "bc");)
WS(captok, 6, dsl::token(A + B) + C, return tk(c, "ab") && tk(c, "c");)
WS(cc, 5, dsl::ascii::digit + A, if (!c.eat(digit)) return false; sp(c); return tk(c, "a");)
WS(until, 5, dsl::until(S) + A, while (!c.eat(';')) if (!c.any()) return false; sp(c); return tk(c, "a");)
constexpr auto st = lexy::symbol_table<int>.map<'x'>(1).map<LEXY_SYMBOL("xy")>(2);
WS(sym, 5, dsl::symbol<st> + A, if (!c.lit("xy") && !c.eat('x')) return false; sp(c); return tk(c, "a");)
WS(symid, 6, dsl::symbol<st>(idd) + A, auto b = c; while (c.eat('x', 'y')) {} auto q = b; auto n = c.p - b.p; if (!(n == 1 && q.is('x')) && !(n == 2 && q.lit("xy"))) return false; sp(c); return tk(c, "a");)
WS(lset, 5, dsl::literal_set(LEXY_LIT("x"), LEXY_LIT("xy")) + A, if (!c.lit("xy") && !c.eat('x')) return false; sp(c); return tk(c, "a");)
WS(op, 5, dsl::op(A) + B, return tk(c, "a") && tk(c, "b");)
WS(opch, 5, (dsl::op(A) / dsl::op(LEXY_LIT("ab"))) + C, if (!c.lit("ab") && !c.eat('a')) return false; sp(c); return tk(c, "c");)
WS(eof, 4, A + dsl::eof, return tk(c, "a") && c.end();)
WS(nl, 5, A + dsl::newline + B, if (!tk(c, "a")) return false; if (!c.eat('\n') && !c.lit("\r\n")) return false; sp(c); return tk(c, "b");)
WS(cfold, 5, dsl::ascii::case_folding(A) + B, if (!c.eat('a') && !c.eat('A')) return false; sp(c); return tk(c, "b");)
WS(nofollow, 5, dsl::not_followed_by(A, LEXY_ASCII_ONE_OF("x")) + B, if (!c.eat('a') || c.is('x')) return false; sp(c); return tk(c, "b");)
WS(pos, 5, A + dsl::position + B, return tk(c, "a") && tk(c, "b");)
// branches: taken ones skip after their tokens, those that are not do not consume
WS(choice, 5, A >> B | C, if (tk(c, "a")) return tk(c, "b"); return tk(c, "c");)
WS(choice2, 6, LEXY_LIT("ab") | A >> C, if (c.lit("ab")) { sp(c); return true; } return tk(c, "a") && tk(c, "c");)
WS(opt, 5, dsl::opt(A) + B, tk(c, "a"); return tk(c, "b");)
WS(peek, 5, dsl::peek(LEXY_LIT("ab")) >> A + B | A >> C, auto q = c; if (q.lit("ab")) return tk(c, "a") && tk(c, "b"); return tk(c, "a") && tk(c, "c");)
WS(whl, 6, dsl::while_(A >> B) + C, while (tk(c, "a")) if (!tk(c, "b")) return false; return tk(c, "c");)
WS(list, 6, dsl::list(A, dsl::sep(dsl::comma)) + B, do { if (!tk(c, "a")) return false; } while (tk(c, ",")); return tk(c, "b");)
WS(times, 6, dsl::times<2>(A) + B, return tk(c, "a") && tk(c, "a") && tk(c, "b");)
WS(brack, 6, dsl::parenthesized(A) + B, return tk(c, "(") && tk(c, "a") && tk(c, ")") && tk(c, "b");)
WS(term, 6, dsl::terminator(S)(A) + B, return tk(c, "a") && tk(c, ";") && tk(c, "b");)
WS(bropt, 6, dsl::round_bracketed.opt_list(A, dsl::sep(dsl::comma)), if (!tk(c, "(")) return false; if (tk(c, ")")) return true; do { if (!tk(c, "a")) return false; } while (tk(c, ",")); return tk(c, ")");)
WS(comb, 6, dsl::combination(A, B) + C, if (tk(c, "a")) { if (!tk(c, "b")) return false; } else if (!tk(c, "b") || !tk(c, "a")) return false; return tk(c, "c");)
WSR(tryr, 6, dsl::try_(A + B, dsl::find(S)) + S, int e = 0; if (!tk(c, "a") || !tk(c, "b")) { e = 1; while (!c.is(';')) if (!c.any()) return -1; } return tk(c, ";") ? e : -1;)
// the branch versions of rules that are more than a token
static bool xy(Ch& c) { if (!c.eat('x', 'y')) return false; while (c.eat('x', 'y')) {} return true; }
#define OR(rule_) (rule_ >> A | B >> A)
WS(b_lit, 5, OR(LEXY_LIT("x")), if (tk(c, "x") || tk(c, "b")) return tk(c, "a"); return false;)
WS(b_cap, 5, OR(dsl::capture(LEXY_LIT("x"))), if (tk(c, "x") || tk(c, "b")) return tk(c, "a"); return false;)
WS(b_int, 5, OR(dsl::integer<int>), if (c.eat(digit)) { while (c.eat(digit)) {} sp(c); return tk(c, "a"); } return tk(c, "b") && tk(c, "a");)
WS(b_ident, 5, OR(idd), if (xy(c)) { sp(c); return tk(c, "a"); } return tk(c, "b") && tk(c, "a");)
WS(b_idres, 5, (idd.reserve(LEXY_LIT("xy")) >> A | idd.pattern() >> B), auto b = c; if (!xy(c)) return false; auto q = b; bool r = c.p - b.p == 2 && q.lit("xy"); sp(c); return tk(c, r ? "b" : "a");)
WS(b_idpat, 5, OR(idd.pattern()), if (xy(c)) { sp(c); return tk(c, "a"); } return tk(c, "b") && tk(c, "a");)
WS(b_kw, 5, OR(LEXY_KEYWORD("xy", idd)), if (c.lit("xy")) { if (c.in('x', 'y')) return false; sp(c); return tk(c, "a"); } return tk(c, "b") && tk(c, "a");)
WS(b_sym, 5, OR(dsl::symbol<st>), if (c.lit("xy") || c.eat('x')) { sp(c); return tk(c, "a"); } return tk(c, "b") && tk(c, "a");)
WS(b_symid, 5, OR(dsl::symbol<st>(idd)), auto b = c; if (xy(c)) { auto q = b; auto n = c.p - b.p; if (!(n == 1 && q.is('x')) && !(n == 2 && q.lit("xy"))) return false; sp(c); return tk(c, "a"); } return tk(c, "b") && tk(c, "a");)
WS(b_symtok, 5, OR(dsl::symbol<st>(dsl::token(dsl::while_one(LEXY_ASCII_ONE_OF("xy"))))), auto b = c; if (xy(c)) { auto q = b; auto n = c.p - b.p; if (!(n == 1 && q.is('x')) && !(n == 2 && q.lit("xy"))) return false; sp(c); return tk(c, "a"); } return tk(c, "b") && tk(c, "a");)
WS(symtok, 5, dsl::symbol<st>(dsl::token(dsl::while_one(LEXY_ASCII_ONE_OF("xy")))) + A, auto b = c; if (!xy(c)) return false; auto q = b; auto n = c.p - b.p; if (!(n == 1 && q.is('x')) && !(n == 2 && q.lit("xy"))) return false; sp(c); return tk(c, "a");)
WS(b_quot, 6, OR(dsl::quoted(dsl::ascii::lower)), if (c.eat('"')) { bool ok = true; while (!c.eat('"')) { if (c.end()) return false; if (!c.eat('a', 'z')) { c.any(); ok = false; } } sp(c); return tk(c, "a") && ok; } return tk(c, "b") && tk(c, "a");)
WS(b_op, 5, OR(dsl::op<0>(LEXY_LIT("x"))), if (tk(c, "x") || tk(c, "b")) return tk(c, "a"); return false;)
WS(b_opch, 5, OR((dsl::op(LEXY_LIT("x")) / dsl::op(LEXY_LIT("xy")))), if (c.lit("xy") || c.eat('x')) { sp(c); return tk(c, "a"); } return tk(c, "b") && tk(c, "a");)
WS(b_lset, 5, OR(dsl::literal_set(LEXY_LIT("x"), LEXY_LIT("xy"))), if (c.lit("xy") || c.eat('x')) { sp(c); return tk(c, "a"); } return tk(c, "b") && tk(c, "a");)
WS(b_mem, 5, OR((dsl::member<nullptr> = LEXY_LIT("x"))), if (tk(c, "x") || tk(c, "b")) return tk(c, "a"); return false;)
WS(b_list, 6, OR(dsl::list(LEXY_LIT("x"), dsl::sep(dsl::comma))), if (tk(c, "x")) { while (tk(c, ",")) if (!tk(c, "x")) return false; return tk(c, "a"); } return tk(c, "b") && tk(c, "a");)
WS(b_brack, 6, OR(dsl::parenthesized(LEXY_LIT("x"))), if (tk(c, "(")) return tk(c, "x") && tk(c, ")") && tk(c, "a"); return tk(c, "b") && tk(c, "a");)
WS(b_nows, 6, OR(dsl::no_whitespace(LEXY_LIT("x") >> LEXY_LIT("y"))), if (c.eat('x')) { if (!c.eat('y')) return false; sp(c); return tk(c, "a"); } return tk(c, "b") && tk(c, "a");)
WS(b_as, 5, OR(dsl::parse_as<int>(dsl::integer<int>)), if (c.eat(digit)) { while (c.eat(digit)) {} sp(c); return tk(c, "a"); } return tk(c, "b") && tk(c, "a");)
constexpr auto cid = dsl::context_identifier<struct t_cid>(idd);
static bool same(Ch b, Ch e, Ch& c) { auto d = c; if (!xy(c) || c.p - d.p != e.p - b.p) return false; for (; b.p != e.p; ++b.p, ++d.p) if (!vp_split(*b.p == *d.p)) return false; return true; }
WS(cid, 6, cid.create() + cid.capture() + B + cid.rematch() + A, auto b = c; if (!xy(c)) return false; auto e = c; sp(c); if (!tk(c, "b") || !same(b, e, c)) return false; sp(c); return tk(c, "a");)
WS(b_cid, 6, cid.create() + (cid.capture() >> B) + OR(cid.rematch()), auto b = c; if (!xy(c)) return false; auto e = c; sp(c); if (!tk(c, "b")) return false; if (c.is('x') || c.is('y')) { if (!same(b, e, c)) return false; sp(c); return tk(c, "a"); } return tk(c, "b") && tk(c, "a");)
// what runs inside of another context still knows that whitespace is off
WS(as, 6, dsl::parse_as<int>(LEXY_LIT("x") + dsl::integer<int>) + A, if (!tk(c, "x") || !c.eat(digit)) return false; while (c.eat(digit)) {} sp(c); return tk(c, "a");)
WS(as_nows, 6, dsl::no_whitespace(LEXY_LIT("x") + dsl::parse_as<int>(LEXY_LIT("y") + dsl::integer<int>) + B) + A, if (!c.lit("xy") || !c.eat(digit)) return false; while (c.eat(digit)) {} return c.eat('b') && (sp(c), true) && tk(c, "a");)
WS(b_as_nows, 6, dsl::no_whitespace(LEXY_LIT("x") + (dsl::parse_as<int>(LEXY_LIT("y") >> LEXY_LIT("b") + dsl::integer<int>) | B)) + A, if (!c.eat('x')) return false; if (c.eat('y')) { if (!c.eat('b') || !c.eat(digit)) return false; while (c.eat(digit)) {} } else if (!c.eat('b')) return false; sp(c); return tk(c, "a");)
WS(nows_as, 6, dsl::parse_as<int>(dsl::no_whitespace(LEXY_LIT("x") + dsl::integer<int>)) + A, if (!c.eat('x') || !c.eat(digit)) return false; while (c.eat(digit)) {} sp(c); return tk(c, "a");)
// whitespace is skipped when a rule gives up in the middle of a token and recovers
WSR(tryno, 6, dsl::try_(LEXY_LIT("xy")) + A, int e = 0; if (c.eat('x')) { if (!c.eat('y')) e = 1; } else e = 1; sp(c); return tk(c, "a") ? e : -1;)
WSR(trytok, 6, dsl::try_(LEXY_LIT("xy") + B, LEXY_LIT(";")) + A, int e = 0; bool ok = false; if (c.eat('x')) { if (c.eat('y')) { sp(c); ok = c.eat('b'); } } if (ok) sp(c); else { e = 1; if (!tk(c, ";")) return -1; } return tk(c, "a") ? e : -1;)
// bytes
struct bbase { static constexpr auto whitespace = dsl::lit_b<0x20>; };
#define WSB(name, n, rule_, ...) struct p_##name : bbase { static constexpr auto rule = rule_; }; WITNESS(name) { vp::accept<p_##name, lexy::byte_encoding>(n, [](auto& c) -> bool { auto sp = [&] { while (c.eat(0x20u)) {} }; auto any = [&](int k) { for (; k; --k) if (!c.any()) return false; sp(); return true; }; (void)any; sp(); __VA_ARGS__ }); }
#define BA dsl::lit_b<0xAA>
WSB(bytes, 6, dsl::bytes<2> + BA, if (!any(2)) return false; return c.eat(0xAAu) && (sp(), true);)
WSB(bint8, 5, dsl::bint8 + BA, if (!any(1)) return false; return c.eat(0xAAu) && (sp(), true);)
WSB(bint16, 6, dsl::little_bint16 + BA, if (!any(2)) return false; return c.eat(0xAAu) && (sp(), true);)
WSB(b_bint16, 6, (dsl::big_bint16 >> BA | BA), auto q = c; if (q.any() && q.any()) { c = q; sp(); if (!c.eat(0xAAu)) return false; sp(); return true; } if (!c.eat(0xAAu)) return false; sp(); return true;)
WSB(pad, 6, dsl::padding_bytes<2> + BA, if (!c.eat(0u) || !c.eat(0u)) return false; sp(); return c.eat(0xAAu) && (sp(), true);)
WSB(b_pad, 6, (dsl::padding_bytes<2> >> BA | BA), auto q = c; if (q.any() && q.any()) { if (!c.eat(0u) || !c.eat(0u)) return false; sp(); if (!c.eat(0xAAu)) return false; sp(); return true; } if (!c.eat(0xAAu)) return false; sp(); return true;)
WSB(bits, 5, dsl::bits(dsl::bit::_0, dsl::bit::any<7>) + BA, if (!c.eat(0u, 0x7Fu)) return false; sp(); return c.eat(0xAAu) && (sp(), true);)
// a subgrammar has the whitespace it declares, whatever is around it, and the outer one comes back after it
struct sgw;
struct sgn;
LEXY_DECLARE_SUBGRAMMAR(sgw)
LEXY_DECLARE_SUBGRAMMAR(sgn)
struct sgw { using vp_void = int; static constexpr auto whitespace = dsl::lit_c<'_'>; static constexpr auto rule = A + B; };
struct sgn { using vp_void = int; static constexpr auto rule = A + B; };
LEXY_DEFINE_SUBGRAMMAR(sgw)
constexpr auto sgw_ = dsl::subgrammar<sgw, void>;
LEXY_DEFINE_SUBGRAMMAR(sgn)
constexpr auto sgn_ = dsl::subgrammar<sgn, void>;
static void us(Ch& c) { while (c.eat('_')) {} }
static bool sub_w(Ch& c) { us(c); if (!c.eat('a')) return false; us(c); if (!c.eat('b')) return false; us(c); return true; }
WS(subw, 6, sgw_ + A + B, return sub_w(c) && tk(c, "a") && tk(c, "b");)
WS(subn, 6, sgn_ + A + B, return c.lit("ab") && tk(c, "a") && tk(c, "b");)
WS(subnowsw, 6, dsl::no_whitespace(sgw_ + A) + dsl::no_whitespace(A + B) + C, return sub_w(c) && c.eat('a') && (sp(c), true) && c.lit("ab") && (sp(c), true) && tk(c, "c");)
WS(subnows, 7, dsl::no_whitespace(LEXY_LIT("x") + sgw_ + B) + A, return c.eat('x') && sub_w(c) && c.eat('b') && (sp(c), true) && tk(c, "a");)
struct sgtok : lexy::token_production { static constexpr auto rule = LEXY_LIT("x") + sgw_ + A; };
WS(subtok, 6, dsl::p<sgtok> + A, return c.eat('x') && sub_w(c) && c.eat('a') && (sp(c), true) && tk(c, "a");)
// productions
struct inner { static constexpr auto rule = A + B; };
struct tok : lexy::token_production { static constexpr auto rule = A + B; };
struct tokb : lexy::token_production { static constexpr auto rule = A >> B; };
struct tokin : lexy::token_production { static constexpr auto rule = A + dsl::p<inner>; };
struct own_ { static constexpr auto whitespace = dsl::lit_c<'_'>; static constexpr auto rule = A + B; };
struct tokown : lexy::token_production { static constexpr auto whitespace = dsl::lit_c<'_'>; static constexpr auto rule = A + B; };
struct transp : lexy::transparent_production { static constexpr auto rule = A + B; };
WS(prod, 6, dsl::p<inner> + C, return tk(c, "a") && tk(c, "b") && tk(c, "c");)
WS(prodt, 6, dsl::p<transp> + C, return tk(c, "a") && tk(c, "b") && tk(c, "c");)
WS(inl, 6, dsl::inline_<inner> + C, return tk(c, "a") && tk(c, "b") && tk(c, "c");)
WS(token, 6, dsl::p<tok> + C, return tk(c, "ab") && tk(c, "c");)
WS(tokenb, 6, dsl::p<tokb> >> C | B >> C, if (c.eat('a')) { if (!c.eat('b')) return false; sp(c); return tk(c, "c"); } return tk(c, "b") && tk(c, "c");)
WS(tokenin, 6, dsl::p<tokin> + C, return tk(c, "aab") && tk(c, "c");)
// a production with its own whitespace skips that at its start and after its tokens, its parent then goes on with its own
WS(own_prod, 7, A + dsl::p<own_> + C, if (!tk(c, "a")) return false; us(c); if (!c.eat('a')) return false; us(c); if (!c.eat('b')) return false; us(c); return tk(c, "c");)
WS(own_tok, 6, dsl::p<tokown> + C, us(c); if (!c.eat('a')) return false; us(c); if (!c.eat('b')) return false; us(c); sp(c); return tk(c, "c");)
// no_whitespace
WS(nows, 6, A + dsl::no_whitespace(B + C) + A, return tk(c, "a") && tk(c, "bc") && tk(c, "a");)
WS(nowsnest, 6, dsl::no_whitespace(A + dsl::no_whitespace(B + B) + C) + A, return tk(c, "abbc") && tk(c, "a");)
WS(nowsq, 7, dsl::no_whitespace(A + dsl::quoted(dsl::ascii::digit) + C) + B, if (!c.lit("a\"")) return false; while (!c.eat('"')) if (!c.eat(digit)) return false; return tk(c, "c") && tk(c, "b");)
WS(nowsb, 6, dsl::no_whitespace(A >> B) | C >> A, if (c.eat('a')) { if (!c.eat('b')) return false; sp(c); return true; } return tk(c, "c") && tk(c, "a");)
WS(nowsl, 6, dsl::no_whitespace(dsl::list(A, dsl::sep(dsl::comma))) + B, do { if (!c.eat('a')) return false; } while (c.eat(',')); sp(c); return tk(c, "b");)
WS(nowsopt, 5, dsl::opt(dsl::no_whitespace(A >> B)) + C, if (c.eat('a')) { if (!c.eat('b')) return false; sp(c); } return tk(c, "c");)
WS(nowsrec, 7, dsl::no_whitespace(dsl::parenthesized(A)) + B, return c.lit("(a)") && (sp(c), true) && tk(c, "b");)
// manual whitespace and other rules as whitespace
ACC(manual, 6, A + dsl::whitespace(dsl::lit_c<' '>) + B, if (!c.eat('a')) return false; sp(c); return c.eat('b');)
ACC(manual2, 6, A + dsl::whitespace(dsl::lit_c<' '> | LEXY_LIT("#") >> LEXY_LIT("!")) + B, if (!c.eat('a')) return false; while (true) { if (c.eat('#')) { if (!c.eat('!')) return false; } else if (!c.eat(' ')) break; } return c.eat('b');)
struct cm { static constexpr auto whitespace = dsl::ascii::blank | LEXY_LIT("//") >> dsl::until(dsl::newline).or_eof(); static constexpr auto rule = A + B; };
static void cms(Ch& c) { while (true) { if (c.eat(blank)) continue; if (!c.lit("//")) return; while (!c.end() && !c.eat('\n') && !c.lit("\r\n")) c.any(); } }
ACCP(comment, 6, cm, cms(c); if (!c.eat('a')) return false; cms(c); if (!c.eat('b')) return false; cms(c); return true;)
// a comment that does not end is an error where it stands
struct cmf { static constexpr auto whitespace = LEXY_LIT("/") >> dsl::until(LEXY_LIT("!")); static constexpr auto rule = A + B; };
static bool cmw(Ch& c) { while (c.eat('/')) { while (!c.eat('!')) if (!c.any()) return false; } return true; }
ACCP(commenterr, 6, cmf, return cmw(c) && c.eat('a') && cmw(c) && c.eat('b') && cmw(c);)
struct tokroot : lexy::token_production { static constexpr auto whitespace = dsl::lit_c<' '>; static constexpr auto rule = A + B; };
struct nowsroot { static constexpr auto rule = A + dsl::p<inner> + dsl::p<own_> + C; };
// a root without whitespace: only productions that define it skip
ACCP(noroot, 7, nowsroot, if (!c.lit("aab")) return false; us(c); if (!c.eat('a')) return false; us(c); if (!c.eat('b')) return false; us(c); return c.eat('c');)
// SWAR readers skip runs of spaces word-wise
struct sw { static constexpr auto whitespace = LEXY_ASCII_ONE_OF(" "); static constexpr auto rule = A + B; };
WITNESS(swar) { vp::accept_swar<sw, lexy::utf8_char_encoding>(10, [](auto& c) -> bool { while (c.eat(' ')) {} if (!c.eat('a')) return false; while (c.eat(' ')) {} if (!c.eat('b')) return false; while (c.eat(' ')) {} return true; }); }
struct sw2 { static constexpr auto whitespace = LEXY_ASCII_ONE_OF(" _"); static constexpr auto rule = A + dsl::eof; };
WITNESS(swar2) { vp::accept_swar<sw2, lexy::ascii_encoding>(9, [](auto& c) -> bool { while (c.eat(' ') || c.eat('_')) {} if (!c.eat('a')) return false; while (c.eat(' ') || c.eat('_')) {} return c.end(); }); }
// long runs: more than one word of spaces, anywhere in the whitespace
struct sw3 { static constexpr auto whitespace = dsl::ascii::space; static constexpr auto rule = LEXY_LIT("a") + LEXY_LIT("b"); };
WITNESS(swar_long) { vp::accept_long<sw3, lexy::utf8_char_encoding>(21, " ab", [](auto& c) -> bool { while (c.eat(' ')) {} if (!c.eat('a')) return false; while (c.eat(' ')) {} if (!c.eat('b')) return false; while (c.eat(' ')) {} return true; }); }
WITNESS(swar_long_a) { vp::accept_long<sw3, lexy::ascii_encoding>(21, " ab", [](auto& c) -> bool { while (c.eat(' ')) {} if (!c.eat('a')) return false; while (c.eat(' ')) {} if (!c.eat('b')) return false; while (c.eat(' ')) {} return true; }); }
struct sw4 { static constexpr auto whitespace = dsl::ascii::space | LEXY_LIT("b"); static constexpr auto rule = LEXY_LIT("a"); };
WITNESS(swar_long2) { vp::accept_long<sw4, lexy::utf8_encoding>(10, " ab", [](auto& c) -> bool { while (c.eat(' ') || c.eat('b')) {} if (!c.eat('a')) return false; while (c.eat(' ') || c.eat('b')) {} return true; }); }
WITNESS(swar_32) { vp::accept_long<sw3, lexy::utf32_encoding>(9, " ab", [](auto& c) -> bool { while (c.eat(' ')) {} if (!c.eat('a')) return false; while (c.eat(' ')) {} if (!c.eat('b')) return false; while (c.eat(' ')) {} return true; }); }
