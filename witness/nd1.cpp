// Combinators over nondeterministic rules.
#include "nd.hpp"
template <int I> constexpr auto N = nd::Nd<I>{};
#define V(...) do { int v_[] = {__VA_ARGS__}; for (int x_ : v_) q.val(x_); } while (0)
ND(seq, 3, N<1> + N<2>, if (!q.parse(1) || !q.parse(2)) return false; V(60, 1, 2); return true;)
ND(br, 3, N<1> >> N<2>, if (!q.parse(1) || !q.parse(2)) return false; V(60, 1, 2); return true;)
ND(choice, 3, N<1> | N<2> | N<3>, for (int i = 1; i <= 3; ++i) if (int b = q.branch(i)) { if (b == 2) return false; V(60, i); return true; } return q.fail();)
ND(choicebr, 3, N<1> >> N<11> | N<2> >> N<12> + N<22> | N<3>,
   if (int b = q.branch(1)) { if (b == 2 || !q.parse(11)) return false; V(60, 1, 11); return true; }
   if (int b = q.branch(2)) { if (b == 2 || !q.parse(12) || !q.parse(22)) return false; V(60, 2, 12, 22); return true; }
   if (int b = q.branch(3)) { if (b == 2) return false; V(60, 3); return true; } return q.fail();)
ND(choiceelse, 3, N<1> | dsl::else_ >> N<4>, if (int b = q.branch(1)) { if (b == 2) return false; V(60, 1); return true; } if (!q.parse(4)) return false; V(60, 4); return true;)
ND(choicenest, 3, N<9> + ((N<1> | N<2>) >> N<3> | N<4>),
   if (!q.parse(9)) return false;
   for (int i = 1; i <= 2; ++i) if (q.next(nd::Try, i)) { if (!q.next(nd::Fin, i)) return q.fail(); if (!q.parse(3)) return false; V(60, 9, i, 3); return true; }
   if (int b = q.branch(4)) { if (b == 2) return false; V(60, 9, 4); return true; } return q.fail();)
ND(opt, 3, dsl::opt(N<1>) + N<2>, int b = q.branch(1); if (b == 2 || !q.parse(2)) return false; V(60, b ? 1 : 70, 2); return true;)
ND(if_, 3, dsl::if_(N<1> >> N<3>) + N<2>, int b = q.branch(1); if (b == 2) return false; if (b && !q.parse(3)) return false; if (!q.parse(2)) return false; if (b) V(60, 1, 3, 2); else V(60, 2); return true;)
ND(list, 4, dsl::list(N<1>), if (!q.parse(1)) return false; V(80, 1); while (int b = q.branch(1)) { if (b == 2) return false; V(80, 1); } V(50, 60, 50); return true;)
ND(lists, 4, dsl::list(N<1>, dsl::sep(N<2>)),
   if (!q.parse(1)) return false; V(80, 1);
   while (int b = q.branch(2)) { if (b == 2) return false; V(80, 2); int i = q.branch(1); if (i == 2) return false; if (!i) { q.fail(); break; } V(80, 1); } V(50, 60, 50); return true;)
ND(listt, 4, dsl::list(N<1>, dsl::trailing_sep(N<2>)),
   if (!q.parse(1)) return false; V(80, 1);
   while (int b = q.branch(2)) { if (b == 2) return false; V(80, 2); int i = q.branch(1); if (i == 2) return false; if (!i) break; V(80, 1); } V(50, 60, 50); return true;)
ND(listn, 4, dsl::list(N<1> + N<3>, dsl::sep(N<2>)),
   while (true) { if (!q.parse(1) || !q.parse(3)) return false; V(80, 1, 3); int b = q.branch(2); if (b == 2) return false; if (!b) break; V(80, 2); } V(50, 60, 50); return true;)
ND(times, 4, dsl::times<3>(N<1>), for (int i = 0; i < 3; ++i) if (!q.parse(1)) return false; V(60, 1, 1, 1); return true;)
ND(timess, 5, dsl::times<2>(N<1>, dsl::sep(N<2>)), if (!q.parse(1)) return false; if (!q.parse(2)) return false; if (!q.parse(1)) return false; int b = q.branch(2); if (b == 2) return false; if (b) { q.fail(); q.anyval = true; } V(60, 1, 2, 1); return true;)
ND(timest, 5, dsl::times<2>(N<1>, dsl::trailing_sep(N<2>)), if (!q.parse(1)) return false; if (!q.parse(2)) return false; if (!q.parse(1)) return false; int b = q.branch(2); if (b == 2) return false; if (b) V(60, 1, 2, 1, 2); else V(60, 1, 2, 1); return true;)
ND(comb, 4, dsl::combination(N<1>, N<2>, N<3>), int got = 0; int n = 0; while (n < 3) { int i = 1; int b = 0; for (; i <= 3; ++i) if ((b = q.branch(i))) break; if (!b) return q.fail(); if (b == 2) return false; if (got & (1 << i)) { q.fail(); } else { got |= 1 << i; ++n; V(80, i); } } V(50, 60, 50); return true;)
ND(pcomb, 4, dsl::partial_combination(N<1>, N<2>), int got = 0; int n = 0; while (n < 2) { int i = 1; int b = 0; for (; i <= 2; ++i) if ((b = q.branch(i))) break; if (!b) break; if (b == 2) return false; if (got & (1 << i)) { q.fail(); } else { got |= 1 << i; ++n; V(80, i); } } V(50, 60, 50); return true;)
ND(dupcomb, 4, dsl::combination(N<1>, N<2> >> N<4>), int got = 0; int n = 0; while (n < 2) { int b = q.branch(1); int i = 1; if (b == 2) return false; if (!b) { i = 2; b = q.branch(2); if (b == 2) return false; if (!b) return q.fail(); if (!q.parse(4)) return false; } if (got & (1 << i)) q.fail(); else { got |= 1 << i; ++n; if (i == 1) V(80, 1); else V(80, 2, 4); } } V(50, 60, 50); return true;)
struct inner { static constexpr auto rule = N<5> >> N<6>; };
struct inner1 { static constexpr auto rule = N<5>; };
ND(prod, 3, N<1> + dsl::p<inner>, if (!q.parse(1)) return false; if (!q.parse(5) || !q.parse(6)) return false; V(60, 5, 6, 60, 1, 60); return true;)
ND(prodbr, 3, dsl::p<inner> | N<2>, if (q.next(nd::Try, 5)) { if (!q.next(nd::Fin, 5)) return q.fail(); if (!q.parse(6)) return false; V(60, 5, 6, 60, 60); return true; } if (int b = q.branch(2)) { if (b == 2) return false; V(60, 2); return true; } return q.fail();)
ND(prodopt, 3, dsl::opt(dsl::p<inner1>) + N<2>, int b = q.branch(5); if (b == 2) return false; if (b) V(60, 5); if (!q.parse(2)) return false; V(60, b ? 60 : 70, 2); return true;)
ND(prodlist, 3, dsl::list(dsl::p<inner1>, dsl::sep(N<2>)), if (!q.parse(5)) return false; V(60, 5, 80, 60); while (int b = q.branch(2)) { if (b == 2) return false; V(80, 2); int i = q.branch(5); if (i == 2) return false; if (!i) { q.fail(); break; } V(60, 5, 80, 60); } V(50, 60, 50); return true;)
struct inl { static constexpr auto rule = N<5> + N<6>; };
ND(inline_, 3, dsl::inline_<inl> + N<7>, if (!q.parse(5) || !q.parse(6) || !q.parse(7)) return false; V(60, 5, 6, 7); return true;)
// failures that are recovered from
ND(try_, 3, dsl::try_(N<1>) + N<2>, bool a = q.parse(1); if (!q.parse(2)) return false; if (a) V(60, 1, 2); else V(60, 2); return true;)
ND(trybr, 3, dsl::try_(N<1> >> N<3>) | N<2>, if (q.next(nd::Try, 1)) { int a = q.next(nd::Fin, 1); if (!a) q.fail(); else a = q.parse(3); if (a) V(60, 1, 3); else V(60); return true; } if (int b = q.branch(2)) { if (b == 2) return false; V(60, 2); return true; } return q.fail();)
ND(tryrec, 3, dsl::try_(N<1>, N<8>) + N<2>, bool a = q.parse(1); if (!a && !q.parse(8)) return false; if (!q.parse(2)) return false; if (a) V(60, 1, 2); else V(60, 8, 2); return true;)
ND(trynull, 3, dsl::try_(N<1> + N<3>, dsl::nullopt) + N<2>, bool a = q.parse(1) && q.parse(3); if (!q.parse(2)) return false; if (a) V(60, 1, 3, 2); else V(60, 70, 2); return true;)
// terminators
ND(term, 3, dsl::terminator(N<9>)(N<1>), if (!q.parse(1) || !q.parse(9)) return false; V(60, 1, 9); return true;)
ND(termopt, 3, dsl::opt(N<1> >> N<3>) + N<9>, int b = q.branch(1); if (b == 2) return false; if (b && !q.parse(3)) return false; if (!q.parse(9)) return false; if (b) V(60, 1, 3, 9); else V(60, 70, 9); return true;)
ND(brk, 3, dsl::brackets(N<8>, N<9>)(N<1>), if (!q.parse(8) || !q.parse(1) || !q.parse(9)) return false; V(60, 8, 1, 9); return true;)
ND(brkbr, 3, dsl::brackets(N<8>, N<9>)(N<1>) | N<2>, if (int b = q.branch(8)) { if (b == 2) return false; if (!q.parse(1) || !q.parse(9)) return false; V(60, 8, 1, 9); return true; } if (int b = q.branch(2)) { if (b == 2) return false; V(60, 2); return true; } return q.fail();)
// conditions that do not consume
ND(flag, 3, dsl::flag(N<1>) + N<2>, int b = q.branch(1); if (b == 2) return false; if (!q.parse(2)) return false; if (b) V(60, 71, 1, 2); else V(60, 71, 2); return true;)
ND(elselist, 4, dsl::list(N<1> | N<2> >> N<3>), int st = 0; while (true) { int b = 0; b = q.branch(1); if (b == 2) return false; if (b) V(80, 1); else { b = q.branch(2); if (b == 2) return false; if (b) { if (!q.parse(3)) return false; V(80, 2, 3); } else if (st) break; else return q.fail(); } st = 1; } V(50, 60, 50); return true;)
ND(optlist, 4, dsl::opt(dsl::list(N<1>)) + N<2>, int b = q.branch(1); if (b == 2) return false; if (b) { V(80, 1); while ((b = q.branch(1))) { if (b == 2) return false; V(80, 1); } V(50); if (!q.parse(2)) return false; V(60, 50, 2); } else { if (!q.parse(2)) return false; V(60, 70, 2); } return true;)
ND(pos, 3, N<1> + dsl::position + N<2>, if (!q.parse(1) || !q.parse(2)) return false; V(60, 1, 71, 2); return true;)
ND(must, 3, dsl::must(N<1>).error<tag> + N<2>, int b = q.branch(1); if (b == 2) return false; if (!b) return q.fail(); if (!q.parse(2)) return false; V(60, 1, 2); return true;)
