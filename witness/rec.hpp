// Records what a production's callback and sink are given, for comparison with a reference.
#pragma once
#include "acc.hpp"
#include <lexy/dsl.hpp>
namespace vp
{
enum : long { OPEN = 10000, CLOSE, LIST, ITEM, NONE, LEX, POS, VAL };
struct Rec
{
    int  n = 0;
    long v[40] = {};
    void add(long x) { if (n < 40) v[n++] = x; }
    bool operator==(const Rec& o) const
    {
        if (n != o.n) return false;
        for (int i = 0; i < n; ++i)
            if (!vp_split(v[i] == o.v[i])) return false;
        return true;
    }
};
inline const char* rec_base; // start of the input
inline void put(Rec& r, const Rec& x) { r.add(OPEN); for (int i = 0; i < x.n; ++i) r.add(x.v[i]); r.add(CLOSE); }
inline void put(Rec& r, const char* p) { r.add(POS); r.add(p - rec_base); }
inline void put(Rec& r, lexy::minus_sign) { r.add(VAL); r.add(-1); }
inline void put(Rec& r, lexy::plus_sign) { r.add(VAL); r.add(1); }
inline void put(Rec& r, lexy::nullopt) { r.add(NONE); }
template <typename R>
inline void put(Rec& r, const lexy::lexeme<R>& l) { r.add(LEX); r.add(l.begin() - rec_base); r.add(l.end() - rec_base); }
template <typename T>
    requires std::is_integral_v<T> || std::is_enum_v<T>
inline void put(Rec& r, T x) { r.add(VAL); r.add(long(x)); }
inline void put(Rec& r, lexy::code_point c) { r.add(VAL); r.add(long(c.value())); }
// callback
struct ToRec
{
    using return_type = Rec;
    template <typename... A>
    constexpr Rec operator()(A&&... a) const
    {
        Rec r;
        (put(r, a), ...);
        return r;
    }
    // sink
    struct Sink
    {
        using return_type = Rec;
        Rec  r;
        bool done = false;
        template <typename... A>
        constexpr void operator()(A&&... a)
        {
            VP_CHECK("C19", !done, "a sink is used after it was finished");
            r.add(ITEM);
            (put(r, a), ...);
        }
        constexpr Rec finish() &&
        {
            VP_CHECK("C19", !done, "a sink is finished twice");
            done = true;
            Rec x;
            x.add(LIST);
            for (int i = 0; i < r.n; ++i) x.add(r.v[i]);
            return x;
        }
    };
    constexpr Sink sink() const { return {}; }
};
constexpr ToRec to_rec{};
// what the reference says
struct Want : Rec
{
    Want& lex(const char* b, const char* e) { add(LEX); add(b - rec_base); add(e - rec_base); return *this; }
    Want& pos(const char* p) { add(POS); add(p - rec_base); return *this; }
    Want& val(long x) { add(VAL); add(x); return *this; }
    Want& none() { add(NONE); return *this; }
    Want& item() { add(ITEM); return *this; }
    Want& open() { add(OPEN); return *this; }      // value of an inner production
    Want& list() { add(OPEN); add(LIST); return *this; } // value of a sink
    Want& close() { add(CLOSE); return *this; }
};
template <typename Prod, typename Ref>
inline void values(int n, Ref ref)
{
    n += MORE;
    vp_retain(n + 2); vp_maxlen(n); vp_exact();
    auto input = tape_input<lexy::default_encoding>();
    auto reader = input.reader();
    rec_base = reader.position();
    ::ref::Ch q{reader.position()};
    Want w;
    bool want = ref(q, w);
    Seen seen;
    auto r = parse<Prod>(reader, seen);
    vp_cover_decl("value");
    // what is accepted is the matter of other properties
    if (!r.ok || !want) return;
    VP_CHECK("C19", r.value == w, "the callback is given other values than the rule produces");
    vp_cover("value");
}
} // namespace vp
#define VAL(name, n, rule_, ...) struct p_##name { static constexpr auto rule = rule_; static constexpr auto value = vp::to_rec; }; VALP(name, n, p_##name, __VA_ARGS__)
#define VALP(name, n, prod, ...) WITNESS(name) { vp::values<prod>(n, [](ref::Ch& c, vp::Want& w) -> bool { __VA_ARGS__ }); }
