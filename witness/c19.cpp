// Values reach the callback in grammar order, each once; sinks receive the items in input order.
#include "rec.hpp"
using namespace ref;
#define A LEXY_LIT("a")
#define B LEXY_LIT("b")
#define C LEXY_LIT("c")
#define CA dsl::capture(LEXY_LIT("a"))
#define CB dsl::capture(LEXY_LIT("b"))
#define CC dsl::capture(LEXY_LIT("c"))
#define POSN dsl::position
constexpr auto S = dsl::comma;
constexpr auto T = dsl::terminator(dsl::semicolon);
// one captured letter
static bool cap(Ch& c, vp::Want& w, unsigned x) { auto b = c.p; if (!c.eat(x)) return false; w.lex(b, c.p); return true; }

VAL(seq, 4, POSN + CA + POSN + CB + CC + POSN, w.pos(c.p); if (!cap(c, w, 'a')) return false; w.pos(c.p); if (!cap(c, w, 'b') || !cap(c, w, 'c')) return false; w.pos(c.p); return true;)
struct in1 { static constexpr auto rule = CA + POSN; static constexpr auto value = vp::to_rec; };
struct in2 { static constexpr auto rule = CB >> dsl::p<in1> + CC; static constexpr auto value = vp::to_rec; };
static bool rin1(Ch& c, vp::Want& w) { w.open(); if (!cap(c, w, 'a')) return false; w.pos(c.p); w.close(); return true; }
static bool rin2(Ch& c, vp::Want& w) { w.open(); if (!cap(c, w, 'b')) return false; if (!rin1(c, w) || !cap(c, w, 'c')) return false; w.close(); return true; }
VAL(prod, 4, POSN + dsl::p<in1> + CB, w.pos(c.p); return rin1(c, w) && cap(c, w, 'b');)
VAL(prod2, 5, CA + dsl::p<in2> + POSN, if (!cap(c, w, 'a') || !rin2(c, w)) return false; w.pos(c.p); return true;)
VAL(prodbr, 5, CA + (dsl::p<in2> >> CA | CC >> CB) + POSN, if (!cap(c, w, 'a')) return false; if (c.is('b')) { if (!rin2(c, w) || !cap(c, w, 'a')) return false; } else if (!cap(c, w, 'c') || !cap(c, w, 'b')) return false; w.pos(c.p); return true;)
VAL(opt, 4, CA + dsl::opt(CB >> CC) + POSN, if (!cap(c, w, 'a')) return false; if (cap(c, w, 'b')) { if (!cap(c, w, 'c')) return false; } else w.none(); w.pos(c.p); return true;)
VAL(if_, 4, CA + dsl::if_(CB >> CC) + POSN, if (!cap(c, w, 'a')) return false; if (cap(c, w, 'b')) { if (!cap(c, w, 'c')) return false; } w.pos(c.p); return true;)
VAL(choice, 4, POSN + (CA >> CB | CB | dsl::else_ >> POSN + CC) + POSN, w.pos(c.p); if (cap(c, w, 'a')) { if (!cap(c, w, 'b')) return false; } else if (!cap(c, w, 'b')) { w.pos(c.p); if (!cap(c, w, 'c')) return false; } w.pos(c.p); return true;)
VAL(peek, 4, POSN + (dsl::peek(A + B) >> CA + POSN + CB | CA >> CC), w.pos(c.p); auto q = c; if (q.lit("ab")) { cap(c, w, 'a'); w.pos(c.p); return cap(c, w, 'b'); } return cap(c, w, 'a') && cap(c, w, 'c');)
VAL(lookah, 4, POSN + (dsl::lookahead(B, C) >> dsl::capture(dsl::token(dsl::while_(A))) + CB | CA), w.pos(c.p); bool f = false; for (auto q = c; !q.end(); q.any()) { if (q.is('b')) { f = true; break; } if (q.is('c')) break; } if (!f) return cap(c, w, 'a'); auto b = c.p; while (c.eat('a')) {} w.lex(b, c.p); return cap(c, w, 'b');)
VAL(ret, 4, CA + (CB >> dsl::return_ | CC >> POSN) + CA, if (!cap(c, w, 'a')) return false; if (cap(c, w, 'b')) return true; if (!cap(c, w, 'c')) return false; w.pos(c.p); return cap(c, w, 'a');)
VAL(capt, 4, dsl::capture(dsl::token(dsl::while_(A))) + POSN + dsl::capture(dsl::token(B + dsl::while_(C))), auto b = c.p; while (c.eat('a')) {} w.lex(b, c.p).pos(c.p); b = c.p; if (!c.eat('b')) return false; while (c.eat('c')) {} w.lex(b, c.p); return true;)
VAL(captbr, 4, POSN + (dsl::capture(dsl::token(A + B)) >> CC | dsl::capture(C) >> CA) + POSN, w.pos(c.p); auto b = c.p; if (c.lit("ab")) { w.lex(b, c.p); if (!cap(c, w, 'c')) return false; } else if (!cap(c, w, 'c') || !cap(c, w, 'a')) return false; w.pos(c.p); return true;)
VAL(idv, 4, POSN + dsl::identifier(LEXY_ASCII_ONE_OF("ab")).reserve(LEXY_LIT("bb")) + POSN, w.pos(c.p); auto b = c.p; while (c.eat('a', 'b')) {} if (b == c.p) return false; w.lex(b, c.p); w.pos(c.p); return true;)
VAL(idbr, 4, CC + (dsl::identifier(LEXY_ASCII_ONE_OF("ab")) >> POSN | dsl::else_ >> CC), if (!cap(c, w, 'c')) return false; auto b = c.p; while (c.eat('a', 'b')) {} if (b == c.p) return cap(c, w, 'c'); w.lex(b, c.p).pos(c.p); return true;)
VAL(sign, 4, POSN + dsl::sign + CA, w.pos(c.p); if (c.eat('-')) w.val(-1); else if (c.eat('+')) w.val(1); return cap(c, w, 'a');)
VAL(minus, 4, POSN + dsl::minus_sign + CA, w.pos(c.p); if (c.eat('-')) w.val(-1); return cap(c, w, 'a');)
VAL(plus, 4, POSN + dsl::plus_sign + CA, w.pos(c.p); if (c.eat('+')) w.val(1); return cap(c, w, 'a');)
VAL(integ, 4, CA + dsl::integer<int>(dsl::digits<dsl::binary>) + POSN, if (!cap(c, w, 'a')) return false; long v = 0; auto b = c.p; while (c.in('0', '1')) { v = v * 2 + (c.is('1') ? 1 : 0); c.any(); } if (b == c.p) return false; w.val(v).pos(c.p); return true;)
VAL(cpid, 4, CA + dsl::code_point_id<2>, if (!cap(c, w, 'a')) return false; long v = 0; for (int i = 0; i < 2; ++i) { if (c.in('0', '1')) v = v * 16 + (c.is('1') ? 1 : 0); else return false; c.any(); } w.val(v); return true;)
// flags and symbols
enum class fl { none = 0, x = 1, y = 2, z = 4 };
constexpr auto ft = lexy::symbol_table<fl>.map<'a'>(fl::x).map<'b'>(fl::y).map<'c'>(fl::z);
VAL(flags, 3, POSN + dsl::flags(dsl::symbol<ft>) + POSN, w.pos(c.p); long v = 0; while (true) { if (c.eat('a')) v |= 1; else if (c.eat('b')) v |= 2; else if (c.eat('c')) v |= 4; else break; } w.val(v).pos(c.p); return true;)
VAL(flagb, 3, POSN + dsl::flag(A) + CB, w.pos(c.p); w.val(c.eat('a')); return cap(c, w, 'b');)
VAL(flagv, 3, POSN + (dsl::flag<fl::y, fl::z>(A)) + CB, w.pos(c.p); w.val(c.eat('a') ? 2 : 4); return cap(c, w, 'b');)
constexpr auto st = lexy::symbol_table<int>.map<LEXY_SYMBOL("a")>(7).map<LEXY_SYMBOL("ab")>(8).map<LEXY_SYMBOL("bca")>(9);
VAL(sym, 5, POSN + dsl::symbol<st> + POSN, w.pos(c.p); if (c.lit("ab")) w.val(8); else if (c.eat('a')) w.val(7); else if (c.lit("bca")) w.val(9); else return false; w.pos(c.p); return true;)
VAL(symbr, 5, POSN + (dsl::symbol<st> >> POSN | dsl::else_ >> CC), w.pos(c.p); if (c.lit("ab")) w.val(8); else if (c.eat('a')) w.val(7); else if (c.lit("bca")) w.val(9); else return cap(c, w, 'c'); w.pos(c.p); return true;)
VAL(symtok, 5, POSN + dsl::symbol<st>(dsl::identifier(LEXY_ASCII_ONE_OF("abc"))) + POSN, w.pos(c.p); auto b = c; while (c.eat('a', 'c')) {} auto q = b; if (q.lit("ab") && q.p == c.p) w.val(8); else if (q = b, q.eat('a') && q.p == c.p) w.val(7); else if (q = b, q.lit("bca") && q.p == c.p) w.val(9); else return false; w.pos(c.p); return true;)
// parse_as, production value in the middle
struct pin { static constexpr auto rule = dsl::integer<int>(dsl::digits<dsl::binary>); static constexpr auto value = lexy::as_integer<int>; };
VAL(pas2, 4, CA + dsl::parse_as<int>(dsl::p<pin>) + CC, if (!cap(c, w, 'a')) return false; long v = 0; auto b = c.p; while (c.in('0', '1')) { v = v * 2 + (c.is('1') ? 1 : 0); c.any(); } if (b == c.p) return false; w.val(v); return cap(c, w, 'c');)
// a token production captured
struct tp : lexy::token_production { static constexpr auto rule = A + dsl::while_(B); static constexpr auto value = lexy::noop; };
VAL(capp, 4, POSN + dsl::capture(dsl::p<tp>) + CC, w.pos(c.p); auto b = c.p; if (!c.eat('a')) return false; while (c.eat('b')) {} w.lex(b, c.p); return cap(c, w, 'c');)
// lists
VAL(list, 4, CB + dsl::list(CA) + POSN, if (!cap(c, w, 'b')) return false; w.list(); if (!c.is('a')) return false; while (c.is('a')) { w.item(); cap(c, w, 'a'); } w.close().pos(c.p); return true;)
VAL(listbr, 5, dsl::list(CA >> CB | CC >> POSN), w.list(); int k = 0; while (true) { if (c.is('a')) { w.item(); cap(c, w, 'a'); if (!cap(c, w, 'b')) return false; } else if (c.is('c')) { w.item(); cap(c, w, 'c'); w.pos(c.p); } else break; ++k; } w.close(); return k > 0;)
VAL(listp, 5, POSN + dsl::list(dsl::p<in2>, dsl::sep(S)), w.pos(c.p).list(); do { w.item(); if (!rin2(c, w)) return false; } while (c.eat(',')); w.close(); return true;)
VAL(lists, 5, dsl::list(CA, dsl::sep(S)) + POSN, w.list(); do { w.item(); if (!cap(c, w, 'a')) return false; } while (c.eat(',')); w.close().pos(c.p); return true;)
VAL(listsv, 5, dsl::list(CA, dsl::sep(dsl::capture(S))) + POSN, w.list(); while (true) { w.item(); if (!cap(c, w, 'a')) return false; auto b = c.p; if (!c.eat(',')) break; w.item().lex(b, c.p); } w.close().pos(c.p); return true;)
VAL(listtv, 5, dsl::list(CA, dsl::trailing_sep(dsl::capture(S))) + POSN, w.list(); if (!c.is('a')) return false; while (c.is('a')) { w.item(); cap(c, w, 'a'); auto b = c.p; if (!c.eat(',')) break; w.item().lex(b, c.p); } w.close().pos(c.p); return true;)
VAL(optlist, 4, CB + dsl::opt(dsl::list(CA)) + POSN, if (!cap(c, w, 'b')) return false; if (c.is('a')) { w.list(); while (c.is('a')) { w.item(); cap(c, w, 'a'); } w.close(); } else w.none(); w.pos(c.p); return true;)
VAL(tlist, 5, POSN + T.list(CA), w.pos(c.p).list(); if (!c.is('a')) return false; while (c.is('a')) { w.item(); cap(c, w, 'a'); } w.close(); return c.eat(';');)
VAL(tlists, 5, POSN + T.list(CA >> POSN, dsl::sep(S)) + POSN, w.pos(c.p).list(); do { w.item(); if (!cap(c, w, 'a')) return false; w.pos(c.p); } while (c.eat(',')); w.close(); if (!c.eat(';')) return false; w.pos(c.p); return true;)
VAL(tlistn, 5, POSN + T.list(POSN + CA, dsl::trailing_sep(S)) + POSN, w.pos(c.p).list(); do { if (w.v[w.n - 1] != vp::LIST && c.is(';')) break; w.item().pos(c.p); if (!cap(c, w, 'a')) return false; } while (c.eat(',')); w.close(); if (!c.eat(';')) return false; w.pos(c.p); return true;)
VAL(tolist, 5, POSN + T.opt_list(CA, dsl::sep(S)) + POSN, w.pos(c.p); if (c.eat(';')) { w.none().pos(c.p); return true; } w.list(); do { w.item(); if (!cap(c, w, 'a')) return false; } while (c.eat(',')); w.close(); if (!c.eat(';')) return false; w.pos(c.p); return true;)
VAL(topt, 4, POSN + T.opt(CA >> CB) + POSN, w.pos(c.p); if (c.eat(';')) w.none(); else { if (!cap(c, w, 'a') || !cap(c, w, 'b') || !c.eat(';')) return false; } w.pos(c.p); return true;)
VAL(brk, 5, POSN + dsl::parenthesized(CA + POSN) + CB, w.pos(c.p); if (!c.eat('(') || !cap(c, w, 'a')) return false; w.pos(c.p); return c.eat(')') && cap(c, w, 'b');)
VAL(brkl, 5, dsl::square_bracketed.opt_list(CA, dsl::sep(S)) + POSN, if (!c.eat('[')) return false; if (c.eat(']')) w.none(); else { w.list(); do { w.item(); if (!cap(c, w, 'a')) return false; } while (c.eat(',')); w.close(); if (!c.eat(']')) return false; } w.pos(c.p); return true;)
VAL(term, 5, POSN + T(CA + POSN) + CB, w.pos(c.p); if (!cap(c, w, 'a')) return false; w.pos(c.p); return c.eat(';') && cap(c, w, 'b');)
VAL(termbr, 5, POSN + (T(CA >> CC) >> CB | CB), w.pos(c.p); if (c.is('a')) { cap(c, w, 'a'); return cap(c, w, 'c') && c.eat(';') && cap(c, w, 'b'); } return cap(c, w, 'b');)
// a list that recovers: the failed item is dropped, the others stay
VAL(trec, 5, T.list(CA >> CB), w.list(); int st = 0; while (true) { if (st == 0 && c.eat(';')) break; if (c.is('a')) { auto q = c; auto v = w; w.item(); cap(c, w, 'a'); if (!cap(c, w, 'b')) { w = v; st = 1; } else st = 0; (void)q; continue; } if (c.eat(';')) break; if (!c.any()) return false; st = 1; } w.close(); return true;)
// combinations
VAL(combi, 5, POSN + dsl::combination(CA, CB >> POSN, CC) + POSN, w.pos(c.p).list(); int m = 0; for (int i = 0; i < 3; ++i) { if (c.is('a') && !(m & 1)) { m |= 1; w.item(); cap(c, w, 'a'); } else if (c.is('b') && !(m & 2)) { m |= 2; w.item(); cap(c, w, 'b'); w.pos(c.p); } else if (c.is('c') && !(m & 4)) { m |= 4; w.item(); cap(c, w, 'c'); } else return false; } w.close().pos(c.p); return true;)
VAL(combip, 4, dsl::partial_combination(CA, CB) + POSN, w.list(); int m = 0; while (m != 3) { if (c.is('a') && !(m & 1)) { m |= 1; w.item(); cap(c, w, 'a'); } else if (c.is('b') && !(m & 2)) { m |= 2; w.item(); cap(c, w, 'b'); } else break; } if (m != 3 && (c.is('a') || c.is('b'))) return false; w.close().pos(c.p); return true;)
// repeat: the count comes from the input
constexpr auto nt = lexy::symbol_table<std::size_t>.map<'0'>(0u).map<'1'>(1u).map<'2'>(2u).map<'3'>(3u);
static int count(Ch& c) { if (!c.in('0', '3')) return -1; int k = c.is('0') ? 0 : c.is('1') ? 1 : c.is('2') ? 2 : 3; c.any(); return k; }
VAL(rep, 5, CB + dsl::repeat(dsl::symbol<nt>)(A) + POSN, if (!cap(c, w, 'b')) return false; int k = count(c); if (k < 0) return false; while (k--) if (!c.eat('a')) return false; w.pos(c.p); return true;)
VAL(repl, 5, CB + dsl::repeat(dsl::symbol<nt>).list(CA >> POSN) + POSN, if (!cap(c, w, 'b')) return false; int k = count(c); if (k < 0) return false; w.list(); while (k--) { w.item(); if (!cap(c, w, 'a')) return false; w.pos(c.p); } w.close().pos(c.p); return true;)
VAL(reps, 6, dsl::repeat(dsl::symbol<nt>).list(CA, dsl::sep(dsl::capture(S))) + POSN, int k = count(c); if (k < 0) return false; w.list(); for (int i = 0; i < k; ++i) { if (i) { auto b = c.p; if (!c.eat(',')) return false; w.item().lex(b, c.p); } w.item(); if (!cap(c, w, 'a')) return false; } if (c.is(',')) return false; w.close().pos(c.p); return true;)
VAL(repc, 5, CB + dsl::repeat(dsl::symbol<nt>).capture(A) + POSN, if (!cap(c, w, 'b')) return false; int k = count(c); if (k < 0) return false; auto b = c.p; while (k--) if (!c.eat('a')) return false; w.lex(b, c.p).pos(c.p); return true;)
// delimited text: chunks and escapes in order
static constexpr auto esc = dsl::backslash_escape.symbol<st>();
VAL(quot, 5, POSN + dsl::quoted(LEXY_ASCII_ONE_OF("abc")) + POSN, w.pos(c.p); if (!c.eat('"')) return false; w.list(); while (true) { auto b = c.p; while (c.eat('a', 'c')) {} if (b != c.p) w.item().lex(b, c.p); if (c.eat('"')) break; return false; } w.close().pos(c.p); return true;)
VAL(quote, 6, dsl::quoted(LEXY_ASCII_ONE_OF("abc"), esc) + POSN, if (!c.eat('"')) return false; w.list(); while (true) { auto b = c.p; while (c.eat('a', 'c')) {} if (b != c.p) w.item().lex(b, c.p); if (c.eat('"')) break; if (!c.eat('\\')) return false; if (c.lit("ab")) w.item().val(8); else if (c.eat('a')) w.item().val(7); else if (c.lit("bca")) w.item().val(9); else return false; } w.close().pos(c.p); return true;)
// context identifiers
constexpr auto ci = dsl::context_identifier<struct t_ci>(dsl::identifier(LEXY_ASCII_ONE_OF("ab")));
VAL(ctxid, 5, POSN + ci.create() + ci.capture() + S + ci.rematch() + POSN, w.pos(c.p); auto b = c; while (c.eat('a', 'b')) {} auto e = c.p; if (b.p == e) return false; w.lex(b.p, e); if (!c.eat(',')) return false; auto f = c.p; for (auto q = b; q.p != e; ++q.p) { if (c.end() || !vp_split(c.peek() == q.peek())) return false; c.any(); } if (c.in('a', 'b')) return false; (void)f; w.pos(c.p); return true;)
// a grammar inside of the grammar
struct sg;
LEXY_DECLARE_SUBGRAMMAR(sg)
struct sg { static constexpr auto rule = dsl::opt(CA) + POSN; static constexpr auto value = vp::to_rec; };
LEXY_DEFINE_SUBGRAMMAR(sg)
constexpr auto sg_ = dsl::subgrammar<sg, vp::Rec>;
VAL(subg, 4, POSN + sg_ + CB + POSN, w.pos(c.p); w.open(); if (!cap(c, w, 'a')) w.none(); w.pos(c.p).close(); if (!cap(c, w, 'b')) return false; w.pos(c.p); return true;)
// effects produce what they return
static constexpr int four() { return 4; }
static constexpr void none() {}
VAL(effv, 4, CA + dsl::effect<four> + POSN + dsl::effect<none> + CB, if (!cap(c, w, 'a')) return false; w.val(4).pos(c.p); return cap(c, w, 'b');)
// try, recovery
VAL(tryv, 4, POSN + dsl::try_(CA + CB) + POSN, w.pos(c.p); auto v = w; if (!cap(c, w, 'a')) { w.pos(c.p); return true; } if (!cap(c, w, 'b')) w = v; w.pos(c.p); return true;)
VAL(tryfind, 4, POSN + dsl::try_(CA + CB, dsl::find(S)) + S + POSN, w.pos(c.p); auto v = w; if (!(cap(c, w, 'a') && cap(c, w, 'b'))) { w = v; while (!c.is(',')) if (!c.any()) return false; } if (!c.eat(',')) return false; w.pos(c.p); return true;)
// whitespace around values
struct p_ws { static constexpr auto whitespace = dsl::lit_c<' '>; static constexpr auto rule = CA + POSN + dsl::p<in1> + dsl::opt(CB); static constexpr auto value = vp::to_rec; };
VALP(ws, 6, p_ws, auto sp = [](Ch& c) { while (c.eat(' ')) {} }; sp(c); if (!cap(c, w, 'a')) return false; sp(c); w.pos(c.p); w.open(); if (!cap(c, w, 'a')) return false; sp(c); w.pos(c.p).close(); if (!cap(c, w, 'b')) w.none(); return true;)
// loops run rules without values in between
VAL(loops, 5, POSN + dsl::while_(A >> B) + CC + dsl::loop(A | dsl::else_ >> dsl::break_) + POSN, w.pos(c.p); while (c.eat('a')) if (!c.eat('b')) return false; if (!cap(c, w, 'c')) return false; while (c.eat('a')) {} w.pos(c.p); return true;)
VAL(times, 5, POSN + dsl::times<3>(CA, dsl::sep(S)) + POSN, w.pos(c.p); for (int i = 0; i < 3; ++i) { if (i && !c.eat(',')) return false; if (!cap(c, w, 'a')) return false; } w.pos(c.p); return true;)
