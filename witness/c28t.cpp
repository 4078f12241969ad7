// Visualization of trees: every node once, in order, below its parent, with its name and its lexeme.
#define LEXY_EXPERIMENTAL 1
#include "vis.hpp"
#include <lexy/dsl.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input/parse_tree_input.hpp>
#include <lexy/parse_tree.hpp>
#define K(cond, msg) VP_CHECK("C28", cond, msg)
using vp::Out; using vp::OutIt;
enum class tk { a, b };
constexpr const char* token_kind_name(tk k) { return k == tk::a ? "a" : "bb"; }
struct child { static constexpr auto name = "c"; static constexpr auto rule = lexy::dsl::any; };
struct root { static constexpr auto name = "r"; static constexpr auto rule = lexy::dsl::any; };
using Tree = lexy::parse_tree_for<lexy::string_input<>, tk>;
static const char text[] = "x \n\\y\tz  \xFFx y";
struct Node { int kind, depth, begin, end; };
struct Model { Node v[12]; int n = 0; void add(int k, int d, int b, int e) { if (n == 12) vp_imprecise(); v[n++] = {k, d, b, e}; } };
template <typename M>
static Tree make(Model& m, int ops, bool empty = true)
{
    Tree::builder b{root{}};
    int pos = 0, depth = 1;
    M open[6] = {}; int had[6] = {};
    vp_exact();
    m.add(2, 0, 0, 0);
    for (int i = 0; i < ops; ++i)
    {
        int c = vp_choice(4);
        if (c == 0)
        {
            int k = vp_choice(2), l = k ? 2 * vp_choice(2) : 1;
            b.token(k ? tk::b : tk::a, text + pos, text + pos + l);
            m.add(k, depth, pos, pos + l); pos += l; ++had[depth];
        }
        else if (c == 1 && depth < 5) { ++had[depth]; open[depth] = b.start_production(child{}); m.add(3, depth++, 0, 0); had[depth] = 0; }
        else if (c == 2 && depth > 1 && (empty || had[depth])) { --depth; b.finish_production(static_cast<M&&>(open[depth])); }
        else if (c == 3) break;
        else vp_stop();
    }
    while (depth > 1) { if (!empty && !had[depth]) vp_stop(); --depth; b.finish_production(static_cast<M&&>(open[depth])); }
    return static_cast<Tree::builder&&>(b).finish(text + pos);
}
template <typename T>
static Out show(const T& t, lexy::visualization_options o) { Out out; vp::formatting = &out; auto it = lexy::visualize_to(OutIt{&out}, t, o); K(it.o == &out, "another output iterator is returned"); return out; }
static Out expected(const Model& m, lexy::visualization_options o)
{
    bool uni = o.is_set(lexy::visualize_use_unicode);
    Out w; bool last[8] = {};
    for (int i = 0; i < m.n; ++i)
    {
        auto& d = m.v[i];
        last[d.depth] = true; bool leaf = d.kind < 2;
        for (int j = i + 1; j < m.n && m.v[j].depth >= d.depth; ++j) if (m.v[j].depth == d.depth) last[d.depth] = false;
        if (d.depth > o.max_tree_depth) continue;
        for (int k = 1; k < d.depth; ++k) if (!uni) w.text("  "); else if (last[k]) w.text("   "); else { w.text8(u8"│"); w.text("  "); }
        if (d.depth > 0) { if (!uni) w.text("- "); else w.text8(last[d.depth] ? u8"└──" : u8"├──"); }
        w.text(d.kind == 0 ? "a" : d.kind == 1 ? "bb" : d.kind == 2 ? "r" : "c");
        if (!leaf) w.put(':');
        if (!leaf && d.depth == o.max_tree_depth) { w.put(' '); if (uni) w.text8(u8"…"); else w.text("..."); }
        if (leaf && d.begin != d.end) { w.text(": "); w.append(show(lexy::lexeme_for<lexy::string_input<>>(text + d.begin, text + d.end), o.reset(lexy::visualize_use_color) | lexy::visualize_space)); }
        w.put('\n');
    }
    return w;
}
enum { COLOUR = 1, LIMIT = 2, UNICODE = 4 };
static void tree(int ops, int what)
{
    Model m; auto t = make<Tree::builder::marker>(m, ops);
    lexy::visualization_options o;
    if ((what & UNICODE) && vp_choice(2)) o = o | lexy::visualize_use_unicode;
    if (what & COLOUR) o = o | lexy::visualize_use_color;
    if (what & LIMIT) { o.max_tree_depth = (unsigned char)vp_choice(4); vp_cover("limited"); }
    Out out = show(t, o), bare;
    if (what & COLOUR) { K(out.plain(bare), "an escape character that does not begin a colour"); K(bare == expected(m, o), "a tree is not written as its nodes"); }
    else K(out == expected(m, o), "a tree is not written as its nodes");
    if (m.n > 3) vp_cover("deep");
}
WITNESS(tree_colour) { vp_cover_decl("deep"); tree(3, COLOUR); }
WITNESS(tree_limit) { vp_cover_decl("limited"); vp_cover_decl("deep"); tree(4 + vp::MORE, LIMIT); }
WITNESS(tree_deep) { vp_cover_decl("deep"); tree(4 + vp::MORE, UNICODE); }
// the lexeme of a sequence of nodes is the text they span
WITNESS(node_lexeme)
{
    vp_cover_decl("text");
    Model m; auto t = make<Tree::builder::marker>(m, 4, false); if (m.n == 1) return;
    auto in = lexy::parse_tree_input(t); auto r = in.reader(); auto b = r.position();
    int cut = vp_choice(4); const char* from = nullptr; const char* to = nullptr;
    using E = typename decltype(r)::encoding;
    for (int i = 0; i < cut && r.peek() != E::eof(); ++i) r.bump();
    lexy::lexeme<decltype(r)> l(b, r.position());
    from = l.begin(); to = l.end();
    lexy::visualization_options o;
    if (vp_choice(2)) o = o | lexy::visualize_use_unicode;
    if (vp_choice(2)) o = o | lexy::visualize_space;
    if (vp_choice(2)) o.max_lexeme_width = 2;
    if (from == to) return;
    Out w = show(lexy::lexeme_for<lexy::string_input<>>(from, to), o);
    K(show(l, o) == w, "the lexeme of nodes is not written as its text");
    vp_cover("text");
}
