// Parse trees: every builder history up to the bound, node sizes such that block boundaries fall everywhere in it.
#include "acc.hpp"
#include <lexy/dsl/eof.hpp>
#include <lexy/parse_tree.hpp>
#include <iterator>
#define CHECK(c, m) VP_CHECK("C15", c, m)
#define RES_MAX 10
#include "res.hpp"
namespace
{
// A forward iterator of F bytes: the bigger it is the fewer nodes fit into a block.
template <int F> struct It
{
    using value_type = char; using difference_type = std::ptrdiff_t; using reference = const char&; using pointer = const char*; using iterator_category = std::forward_iterator_tag;
    const char* p;
    unsigned char pad[F - 8];
    reference operator*() const { return *p; }
    It& operator++() { ++p; return *this; }
    It operator++(int) { auto c = *this; ++p; return c; }
    bool operator==(const It& o) const { return p == o.p; }
    bool operator!=(const It& o) const { return p != o.p; }
};
template <int F> struct Rd { using encoding = lexy::default_encoding; using iterator = It<F>; };
template <> struct Rd<0> { using encoding = lexy::default_encoding; using iterator = const char*; };
template <int F> inline auto mk(const char* p) { if constexpr (F == 0) return p; else { It<F> i; i.p = p; return i; } }
template <int F> inline const char* at(const typename Rd<F>::iterator& i) { if constexpr (F == 0) return i; else return i.p; }
const char text[64] = {};
struct Root { static constexpr auto name = "Root"; static constexpr auto rule = lexy::dsl::eof; };
struct A { static constexpr auto name = "A"; static constexpr auto rule = lexy::dsl::eof; };
struct B : lexy::token_production { static constexpr auto name = "B"; static constexpr auto rule = lexy::dsl::eof; };
struct T : lexy::transparent_production { static constexpr auto name = "T"; static constexpr auto rule = lexy::dsl::eof; };

//=== the reference: plain lists ===//
constexpr int MAXN = 14, MAXC = 8;
struct List { int n = 0; int c[MAXC]; void add(int i) { if (n == MAXC) vp_imprecise(); c[n++] = i; } };
struct MNode { int what; int b, e; List ch; }; // what: 0 root, 1 A, 2 B, 3.. token kinds
struct Model
{
    MNode nd[MAXN];
    int   n = 0;
    int node(int what, int b, int e) { if (n == MAXN) vp_imprecise(); nd[n].what = what; nd[n].b = b; nd[n].e = e; nd[n].ch.n = 0; return n++; }
    int size(int i) const { int r = 1; for (int k = 0; k < nd[i].ch.n; ++k) r += size(nd[i].ch.c[k]); return r; }
    int depth(int i) const { int r = 0; for (int k = 0; k < nd[i].ch.n; ++k) { int d = 1 + depth(nd[i].ch.c[k]); if (d > r) r = d; } return r; }
    int first(int i) const { while (i >= 0 && nd[i].what < 3) i = nd[i].ch.n ? nd[i].ch.c[0] : -1; return i < 0 ? -1 : nd[i].b; }
};
constexpr int TOKA = 3, TOKB = 4, TERR = 5, TWS = 6;
template <int F> struct H
{
    using Tree    = lexy::parse_tree<Rd<F>, void, Res>;
    using Builder = typename Tree::builder;
    using Marker  = typename Builder::marker;
    using Node    = typename Tree::node;
    static auto info(int what) { return what == 0 ? lexy::production_info(Root{}) : what == 1 ? lexy::production_info(A{}) : lexy::production_info(B{}); }

    Model m;
    List  cur;
    List  saved[6];
    int   kind[6]; // 1 A, 2 B, 7 transparent, 8 container
    Marker mk_[6];
    int   depth = 0;
    int   pos = 0, end_ = 0;

    void token(Builder& b, int what)
    {
        int e = what == TWS ? pos : pos + 1;
        lexy::token_kind<void> k = what == TERR ? lexy::token_kind<void>(lexy::error_token_kind) : what == TWS ? lexy::token_kind<void>(lexy::whitespace_token_kind) : lexy::token_kind<void>(what);
        b.token(k, mk<F>(text + pos), mk<F>(text + e));
        if (what == TWS) return; // ignored if empty
        if (what == TERR && cur.n && m.nd[cur.c[cur.n - 1]].what == TERR) m.nd[cur.c[cur.n - 1]].e = e;
        else cur.add(m.node(what, pos, e));
        pos = e;
    }
    void start(Builder& b, int k)
    {
        if (k == 7) mk_[depth] = b.start_production(T{});
        else if (k == 8) mk_[depth] = b.start_container();
        else mk_[depth] = b.start_production(info(k));
        kind[depth] = k;
        saved[depth] = cur;
        if (k != 7) cur.n = 0;
        ++depth;
    }
    void set(Builder& b, int k)
    {
        if (k == 7) { b.set_container_production(T{}); return; }
        b.set_container_production(info(k));
        int i = m.node(k, 0, 0);
        m.nd[i].ch = cur;
        cur.n = 0; cur.add(i);
    }
    void finish(Builder& b)
    {
        --depth;
        if (kind[depth] == 8)
        {
            b.finish_container(static_cast<Marker&&>(mk_[depth]));
            List l = saved[depth];
            for (int i = 0; i < cur.n; ++i) l.add(cur.c[i]);
            cur = l;
        }
        else
        {
            b.finish_production(static_cast<Marker&&>(mk_[depth]));
            if (kind[depth] != 7) { int i = m.node(kind[depth], 0, 0); m.nd[i].ch = cur; cur = saved[depth]; cur.add(i); }
        }
    }
    void cancel(Builder& b)
    {
        --depth;
        if (kind[depth] == 8) b.cancel_container(static_cast<Marker&&>(mk_[depth]));
        else b.cancel_production(static_cast<Marker&&>(mk_[depth]));
        cur = saved[depth];
    }
    template <int Mode> void run(Builder& b, int ops)
    {
        for (int i = 0; i < ops; ++i)
        {
            bool top_cont = depth && kind[depth - 1] == 8;
            switch (vp_choice(10))
            {
            case 0: return;
            case 1: token(b, TOKA); break;
            case 2: token(b, TERR); break;
            case 3: if (!(Mode & 1)) vp_stop(); token(b, TWS); break;
            case 4: start(b, 1); break;
            case 5: start(b, 8); break;
            case 6: start(b, 7); break;
            case 7: if (!depth) vp_stop(); finish(b); break;
            case 8: if (!depth) vp_stop(); cancel(b); break;
            case 9: if (!top_cont) vp_stop(); set(b, (Mode & 1) && vp_choice(2) ? 7 : 1); break;
            }
            CHECK(b.current_child_count() == std::size_t(cur.n), "another number of children than were added");
        }
    }
    // compares the tree with the reference, depth first
    template <typename It2> void walk(It2& tr, Node n, Node parent, int i, int next_pos)
    {
        const MNode& x = m.nd[i];
        auto v = *tr;
        CHECK(v.node == n, "traversal visits another node");
        CHECK(n.parent() == parent, "wrong parent");
        auto k = n.kind();
        CHECK(k.is_root() == (i == 0), "wrong root");
        if (x.what >= 3)
        {
            CHECK(v.event == lexy::traverse_event::leaf, "token visited as production");
            CHECK(k.is_token() && !k.is_production() && !k.is_token_production(), "token is not a token");
            CHECK(n.children().empty() && n.children().begin() == n.children().end(), "token with children");
            lexy::token_kind<void> tk = x.what == TERR ? lexy::token_kind<void>(lexy::error_token_kind) : lexy::token_kind<void>(x.what);
            CHECK(k == tk && !(k == lexy::token_kind<void>(77)), "wrong token kind");
            CHECK(at<F>(n.lexeme().begin()) == text + x.b && at<F>(n.lexeme().end()) == text + x.e, "token covers another range");
            CHECK(at<F>(n.token().position()) == text + x.b, "token covers another range");
            ++tr;
        }
        else
        {
            CHECK(v.event == lexy::traverse_event::enter, "production not entered");
            CHECK(!k.is_token() && k.is_production() && k.is_token_production() == (x.what == 2), "production is not a production");
            CHECK(k == info(x.what) && !(k == info((x.what + 1) % 3)), "wrong production");
            ++tr;
            auto r = n.children();
            CHECK(r.size() == std::size_t(x.ch.n) && r.empty() == (x.ch.n == 0), "wrong number of children");
            auto it = r.begin();
            for (int c = 0; c < x.ch.n; ++c)
            {
                CHECK(it != r.end(), "child is missing");
                Node ch = *it;
                CHECK(ch.is_last_child() == (c + 1 == x.ch.n), "wrong last child");
                // the siblings are the other children, in order, starting after this one
                int s = 0;
                for (auto si = ch.siblings().begin(); si != ch.siblings().end(); ++si) { CHECK(s < x.ch.n, "too many siblings"); CHECK(*si != ch, "node is its own sibling"); ++s; }
                CHECK(s + 1 == x.ch.n, "wrong number of siblings");
                walk(tr, ch, n, x.ch.c[c], c + 1 < x.ch.n ? m.first(x.ch.c[c + 1]) : next_pos);
                ++it;
            }
            CHECK(it == r.end(), "child that was not added");
            CHECK((*tr).event == lexy::traverse_event::exit && (*tr).node == n, "production not left");
            ++tr;
        }
        if (int p = m.first(i); p >= 0)
        {
            CHECK(at<F>(n.position()) == text + p, "wrong position");
            if (next_pos >= 0)
            {
                auto l = n.covering_lexeme();
                CHECK(at<F>(l.begin()) == text + p && at<F>(l.end()) == text + (x.what >= 3 ? x.e : next_pos), "wrong covering lexeme");
            }
        }
    }
    void check(const Tree& t)
    {
        CHECK(!t.empty(), "tree is empty");
        CHECK(t.size() == std::size_t(m.size(0)), "wrong size");
        CHECK(t.depth() == std::size_t(m.depth(0)), "wrong depth");
        CHECK(at<F>(t.remaining_input().begin()) == text + pos && at<F>(t.remaining_input().end()) == text + pos + 2, "wrong remaining input");
        auto r = t.traverse();
        auto it = r.begin();
        walk(it, t.root(), t.root(), 0, pos);
        CHECK(it == r.end(), "traversal goes on");
    }
    template <int Mode> void build(Tree& t, int ops, int pre, int fill)
    {
        Builder b(static_cast<Tree&&>(t), info(0));
        m.node(0, 0, 0);
        for (int i = 0; i < pre; ++i) { start(b, 8); finish(b); }
        for (int i = 0; i < fill; ++i) token(b, TOKB);
        run<Mode>(b, ops);
        while (depth) finish(b);
        m.nd[0].ch = cur;
        t = static_cast<Builder&&>(b).finish({mk<F>(text + pos), mk<F>(text + pos + 2)});
    }
};
// a history
template <int F, int Mode = 0> inline void hist(int ops, int pre = 0, int fill = 0)
{
    vp_exact(); vp_cover_decl("done"); vp_depth(200);
    Heap heap; Res r{&heap, 1};
    {
        typename H<F>::Tree t(&r);
        H<F> h;
        h.template build<Mode>(t, ops, pre, fill);
        h.check(t);
        for (int i = 0; i < heap.live; ++i) CHECK(heap.b[i].owner == 1, "memory from another resource");
    }
    CHECK(heap.live == 0, "memory is not given back");
    vp_cover("done");
}
// a tree that is used again, cleared, moved
template <int F> inline void again(int ops1, int ops2)
{
    vp_exact(); vp_cover_decl("done"); vp_depth(200);
    Heap heap; Res r{&heap, 1}, r2{&heap, 2};
    {
        using Tree = typename H<F>::Tree;
        Tree t(&r), u(&r2);
        CHECK(t.empty() && t.size() == 0 && t.traverse().empty() && t.traverse().begin() == t.traverse().end(), "new tree is not empty");
        { H<F> h; h.template build<0>(t, ops1, 0, vp_choice(2) ? 2 : 0); h.check(t); }
        int blocks = heap.live;
        switch (vp_choice(6))
        {
        case 0: break;
        case 1: t.clear(); CHECK(t.empty() && t.size() == 0 && t.traverse().empty(), "cleared tree is not empty"); break;
        case 2: { Tree v(static_cast<Tree&&>(t)); CHECK(heap.live == blocks, "move allocates"); t = static_cast<Tree&&>(v); CHECK(heap.live == blocks, "move allocates"); break; }
        case 3: { Tree v(static_cast<Tree&&>(t)); H<F> h; h.template build<0>(v, 1, 0, 0); h.check(v); t = static_cast<Tree&&>(v); h.check(t); break; }
        case 4: { H<F> h; h.template build<0>(u, 1, 0, 0); u = static_cast<Tree&&>(t); break; }
        case 5: { typename H<F>::Builder b(static_cast<Tree&&>(t), H<F>::info(0)); H<F> h; h.token(b, TOKB); h.token(b, TOKB); t = Tree(&r2); break; } // abandoned
        }
        H<F> h;
        h.template build<0>(t, ops2, 0, 2);
        h.check(t);
        H<F> h2;
        h2.template build<0>(t, 0, 0, 2);
        h2.check(t);
    }
    CHECK(heap.live == 0, "memory is not given back");
    vp_cover("done");
}
} // namespace
WITNESS(small4) { hist<0, 1>(4); }
WITNESS(small5) { hist<0>(5); }
#define FAT(f, n) WITNESS(fat_##f) { hist<f>(n); } WITNESS(fat_##f##_pre1) { hist<f>(n - 1, 1, 1); } WITNESS(fat_##f##_pre2) { hist<f>(n - 1, 2, 1); } WITNESS(again_##f) { again<f>(1, 2); }
FAT(1008, 4) FAT(1000, 4) FAT(2024, 4) FAT(2016, 4) FAT(2008, 4) FAT(2000, 4) FAT(1992, 4)
