// Parsing a parse tree: the reader walks exactly the children of the node, and the node rules match their kind.
#define LEXY_EXPERIMENTAL 1
#include "vp.hpp"
#include "val.hpp"
#include <lexy/dsl.hpp>
#include <lexy/action/match.hpp>
#include <lexy/input/parse_tree_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/parse_tree.hpp>
#include <lexy/dsl/parse_tree_node.hpp>
#define K(cond, msg) VP_CHECK("C26", cond, msg)
enum class tk { a, b };
constexpr const char* token_kind_name(tk k) { return k == tk::a ? "a" : "b"; }
struct child { static constexpr auto rule = lexy::dsl::any; };
struct other { static constexpr auto rule = lexy::dsl::any; };
struct root { static constexpr auto rule = lexy::dsl::any; };
using Tree = lexy::parse_tree_for<lexy::string_input<>, tk>;
// what was built: kind 0, 1 tokens a, b; 2 child, 3 other, with children 0 and 1
struct Node { int kind, begin, end, n, sub[2], subend[2]; };
struct Shape { Node v[3]; int n = 0, len = 0; };
static const char* text = "xyxyxyxyxyxy";
static Tree make(Shape& s)
{
    Tree::builder b{root{}};
    int pos = 0;
    s.n = 1 + vp_choice(2 + vp::MORE); // a production has at least one child (documented)
    auto tok = [&](int k) { int l = 1 + vp_choice(2); b.token(k ? tk::b : tk::a, text + pos, text + pos + l); pos += l; };
    for (int i = 0; i < s.n; ++i)
    {
        auto& d = s.v[i];
        d.kind = vp_choice(4); d.begin = pos; d.n = 0;
        if (d.kind < 2) tok(d.kind);
        else
        {
            auto fill = [&] { d.n = 1 + vp_choice(2); for (int j = 0; j < d.n; ++j) { d.sub[j] = vp_choice(2); tok(d.sub[j]); d.subend[j] = pos; } };
            if (d.kind == 2) { auto m = b.start_production(child{}); fill(); b.finish_production(static_cast<decltype(m)&&>(m)); }
            else { auto m = b.start_production(other{}); fill(); b.finish_production(static_cast<decltype(m)&&>(m)); }
        }
        d.end = pos;
    }
    s.len = pos;
    return static_cast<Tree::builder&&>(b).finish(text + pos);
}
template <typename N>
static bool is(const N& n, int kind) { return kind == 0 ? n.kind() == tk::a : kind == 1 ? n.kind() == tk::b : kind == 2 ? n.kind() == child{} : n.kind() == other{}; }
WITNESS(walk)
{
    Shape s; auto tree = make(s);
    auto in = lexy::parse_tree_input(tree);
    auto r  = in.reader(); auto m = r.current(); int at = vp_choice(s.n + 1);
    using E = typename decltype(r)::encoding;
    for (int i = 0; i < s.n; ++i)
    {
        if (i == at) m = r.current();
        auto& d = s.v[i];
        K(r.peek() != E::eof(), "the children of a node end too early");
        K(is(r.peek(), d.kind), "the reader is at another kind of node");
        if (d.kind < 2 || d.n > 0) K(r.position() == text + d.begin, "the reader is at another position");
        for (int k = 0; k < 4; ++k)
        {
            bool y = k == 0 ? E::match(r.peek(), tk::a) : k == 1 ? E::match(r.peek(), tk::b) : k == 2 ? E::match(r.peek(), child{}) : E::match(r.peek(), other{});
            K(y == (k == d.kind), "a node matches another kind");
        }
        if (d.kind < 2)
        {
            auto l = r.lexeme_reader(); int n = 0;
            while (l.peek() != lexy::default_encoding::eof()) { K(l.peek() == text[d.begin + n], "the lexeme of a token is another one"); l.bump(); ++n; }
            K(n == d.end - d.begin, "the lexeme of a token has another length");
            K(r.child_reader().peek() == E::eof(), "a token has children");
        }
        else
        {
            auto c = r.child_reader(); int p = d.begin;
            for (int j = 0; j < d.n; ++j) { K(c.peek() != E::eof() && is(c.peek(), d.sub[j]) && c.position() == text + p, "a child of a production is another one"); p = d.subend[j]; c.bump(); }
            K(c.peek() == E::eof(), "a production has more children");
            if (d.n > 0) K(c.position() == text + d.end, "the children of a production end elsewhere");
        }
        r.bump();
    }
    if (at == s.n) m = r.current();
    K(r.peek() == E::eof(), "a node has more children than were added");
    if (s.n > 0 && (s.v[s.n - 1].kind < 2 || s.v[s.n - 1].n > 0)) K(r.position() == text + s.len, "the children end at another position");
    r.reset(m);
    if (at < s.n) K(is(r.peek(), s.v[at].kind), "the reader does not go back"); else K(r.peek() == E::eof(), "the reader does not go back to the end");
    vp_cover_decl("end"); vp_cover("end");
}
template <typename G, typename F>
static void grammar(F want)
{
    Shape s; auto tree = make(s);
    auto in = lexy::parse_tree_input(tree);
    bool w = want(s);
    bool ok = lexy::match<G>(in);
    K(!ok || w, "a tree is accepted although it does not have the form of the grammar");
    K(ok || !w, "a tree of the form of the grammar is rejected");
    vp_cover_decl("accepted"); vp_cover_decl("rejected");
    if (ok) vp_cover("accepted"); else vp_cover("rejected");
}
namespace dsl = lexy::dsl;
struct g1 { static constexpr auto rule = dsl::while_(dsl::tnode<tk::a> | dsl::pnode<child>) + dsl::eof; };
WITNESS(g_kinds) { grammar<g1>([](Shape& s) { for (int i = 0; i < s.n; ++i) if (s.v[i].kind != 0 && s.v[i].kind != 2) return false; return true; }); }
struct g2 { static constexpr auto rule = dsl::while_(dsl::pnode<child>(dsl::while_(dsl::tnode<tk::b>)) | dsl::tnode<tk::a>) + dsl::eof; };
WITNESS(g_child) { grammar<g2>([](Shape& s) { for (int i = 0; i < s.n; ++i) { auto& d = s.v[i]; if (d.kind == 0) continue; if (d.kind != 2) return false; for (int j = 0; j < d.n; ++j) if (d.sub[j] != 1) return false; } return true; }); }
struct g3 { static constexpr auto rule = dsl::tnode<tk::a>(LEXY_LIT("xy")) + dsl::tnode<tk::b>; };
WITNESS(g_tok) { grammar<g3>([](Shape& s) { return s.n >= 2 && s.v[0].kind == 0 && s.v[0].end - s.v[0].begin == 2 && s.v[1].kind == 1; }); }
struct g4 { static constexpr auto rule = dsl::pnode<other>(dsl::tnode<tk::a>(LEXY_LIT("x")) + dsl::tnode<tk::b>) | dsl::else_ >> dsl::tnode<tk::a>; };
WITNESS(g_seq) { grammar<g4>([](Shape& s) { if (s.n == 0) return false; auto& d = s.v[0]; if (d.kind == 3) return d.n == 2 && d.sub[0] == 0 && d.sub[1] == 1 && d.subend[0] == d.begin + 1; return d.kind == 0; }); }
// whitespace between the nodes, and in a node before its first and after every other child
struct g5 { static constexpr auto whitespace = dsl::tnode<tk::b>; static constexpr auto rule = dsl::pnode<child>(dsl::tnode<tk::a>) + dsl::if_(dsl::tnode<tk::a>) + dsl::eof; };
static bool g5_in(Node& d) { int as = 0; for (int j = 0; j < d.n; ++j) as += d.sub[j] == 0; return as == 1; }
WITNESS(g_space) { grammar<g5>([](Shape& s) { int st = 0; for (int i = 0; i < s.n; ++i) { auto& d = s.v[i]; if (d.kind == 1) continue; if (st == 0 && d.kind == 2 && g5_in(d)) st = 1; else if (st == 1 && d.kind == 0) st = 2; else return false; } return st > 0; }); }
struct g6 { static constexpr auto whitespace = dsl::tnode<tk::b>; static constexpr auto rule = dsl::while_(dsl::pnode<child>(dsl::tnode<tk::a>) | dsl::tnode<tk::a> | dsl::pnode<other>) + dsl::eof; };
WITNESS(g_space_br) { grammar<g6>([](Shape& s) { for (int i = 0; i < s.n; ++i) { auto& d = s.v[i]; if (d.kind == 2 && !g5_in(d)) return false; } return true; }); }
