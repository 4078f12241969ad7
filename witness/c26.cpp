// Every input adaptor presents exactly its code units, then the end, and markers bring the reader back.
#include "vp.hpp"
#include <lexy/dsl.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/lexeme_input.hpp>
#include <lexy/input/argv_input.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/lexeme.hpp>
#define K(cond, msg) VP_CHECK("C26", cond, msg)
// Reads n units through the reader, goes back to a marker, and reads on to the end.
template <typename Reader, typename At>
static void reads(Reader r, int n, At at)
{
    using E = typename Reader::encoding;
    int  k = vp_choice(n + 1);
    auto m = r.current();
    auto p = r.position();
    for (int i = 0; i < n; ++i)
    {
        if (i == k) { m = r.current(); p = r.position(); }
        auto c = r.peek();
        K(vp_split(c != E::eof()), "an input ends before its last code unit");
        K(vp_split(c == E::to_int_type(at(i))), "an input presents another code unit");
        K(vp_split(*r.position() == at(i)), "the position of an input is at another code unit");
        r.bump();
    }
    if (n == k) { m = r.current(); p = r.position(); }
    K(r.peek() == E::eof(), "an input does not end after its last code unit");
    K(r.peek() == E::eof(), "an input goes on after its end");
    r.reset(m);
    K(r.position() == p && m.position() == p, "a reader does not go back to the marker");
    for (int i = k; i < n; ++i)
    {
        K(vp_split(r.peek() == E::to_int_type(at(i))), "an input presents another code unit after going back");
        r.bump();
    }
    K(r.peek() == E::eof(), "an input does not end after going back");
    vp_cover_decl("end"); vp_cover("end");
}
template <typename C>
struct Txt
{
    C v[4];
    int n;
    Txt(uint64_t max = 0xFE) : n(vp_choice(4)) { for (auto& c : v) c = C(vp_any_range(0, max)); }
    C operator()(int i) const { return v[i]; }
};
template <typename E>
static uint64_t top() { using C = typename E::char_type; return std::is_same_v<E, lexy::ascii_encoding> ? 0x7F : sizeof(C) == 1 ? (sizeof(typename E::int_type) == 1 ? 0xFE : 0xFF) : sizeof(C) == 2 ? 0xFFFE : 0xFFFFFFFE; }
template <typename E>
static void strings()
{
    using C = typename E::char_type;
    Txt<C> t(top<E>());
    switch (vp_choice(4))
    {
    case 0: reads(lexy::string_input<E>(t.v, std::size_t(t.n)).reader(), t.n, t); break;
    case 1: reads(lexy::string_input<E>(t.v, t.v + t.n).reader(), t.n, t); break;
    case 2: reads(lexy::range_input<E, const C*>(t.v, t.v + t.n).reader(), t.n, t); break;
    default: reads(lexy::buffer<E>(t.v, std::size_t(t.n)).reader(), t.n, t); break;
    }
}
WITNESS(str_default) { strings<lexy::default_encoding>(); }
WITNESS(str_ascii) { strings<lexy::ascii_encoding>(); }
WITNESS(str_utf8) { strings<lexy::utf8_encoding>(); }
WITNESS(str_utf8c) { strings<lexy::utf8_char_encoding>(); }
WITNESS(str_utf16) { strings<lexy::utf16_encoding>(); }
WITNESS(str_utf32) { strings<lexy::utf32_encoding>(); }
WITNESS(str_byte) { strings<lexy::byte_encoding>(); }
// other character types of the same encoding
WITNESS(str_conv)
{
    Txt<char> t(0x7F); struct V { const char* d; std::size_t s; const char* data() const { return d; } std::size_t size() const { return s; } using value_type = char; };
    auto in = lexy::string_input<lexy::utf8_encoding>(t.v, t.v + t.n);
    reads(in.reader(), t.n, [&](int i) { return char8_t(t.v[i]); });
    auto in2 = lexy::string_input<lexy::byte_encoding>(t.v, std::size_t(t.n));
    reads(in2.reader(), t.n, [&](int i) { return (unsigned char)(t.v[i]); });
}
struct View { const char* d; std::size_t s; const char* data() const { return d; } std::size_t size() const { return s; } using value_type = char; };
WITNESS(str_view) { Txt<char> t(0x7F); View v{t.v, std::size_t(t.n)}; reads(lexy::string_input<lexy::ascii_encoding>(v).reader(), t.n, t); reads(lexy::string_input<lexy::utf8_encoding>(v).reader(), t.n, [&](int i) { return char8_t(t.v[i]); }); }
// zero-terminated
WITNESS(zstr)
{
    char v[5]; int n = vp_choice(4);
    for (int i = 0; i < 5; ++i) v[i] = char(vp_any_range(1, 0xFE));
    v[n] = 0;
    reads(lexy::zstring_input(v).reader(), n, [&](int i) { return v[i]; });
    reads(lexy::zstring_input<lexy::utf8_encoding>(v).reader(), n, [&](int i) { return char8_t(v[i]); });
}
// a range of single-pass-like iterators (forward)
struct It
{
    using value_type = char; using difference_type = std::ptrdiff_t; using reference = const char&; using pointer = const char*; using iterator_category = std::forward_iterator_tag;
    const char* p = nullptr;
    reference operator*() const { return *p; }
    It& operator++() { ++p; return *this; }
    It operator++(int) { auto c = *this; ++p; return c; }
    bool operator==(const It&) const = default;
};
struct End { const char* e; friend bool operator==(It i, End e) { return i.p == e.e; } friend bool operator!=(It i, End e) { return i.p != e.e; } };
WITNESS(range_fwd)
{
    Txt<char> t;
    if (vp_choice(2)) reads(lexy::range_input<lexy::default_encoding, It>(It{t.v}, It{t.v + t.n}).reader(), t.n, t);
    else reads(lexy::range_input<lexy::default_encoding, It, End>(It{t.v}, End{t.v + t.n}).reader(), t.n, t);
}
WITNESS(lexeme_in)
{
    Txt<char> t; auto in = lexy::string_input<lexy::default_encoding>(t.v, std::size_t(t.n));
    int b = vp_choice(t.n + 1), e = vp_choice(t.n + 1); if (b > e) vp_stop();
    auto r = in.reader(); for (int i = 0; i < b; ++i) r.bump(); auto from = r.position(); for (int i = b; i < e; ++i) r.bump();
    auto lex = lexy::lexeme(r, from);
    K(int(lex.size()) == e - b && lex.empty() == (b == e) && lex.begin() == t.v + b && lex.end() == t.v + e, "a lexeme is another range");
    for (int i = 0; i < e - b; ++i) K(vp_split(lex[std::size_t(i)] == t.v[b + i]), "a lexeme has other code units");
    lexy::lexeme_input li(in, lex);
    reads(li.reader(), e - b, [&](int i) { return t.v[b + i]; });
    K(li.lexeme().begin() == lex.begin() && li.parent_input().data() == t.v, "a lexeme input has another parent");
    lexy::buffer<lexy::default_encoding> buf(t.v, std::size_t(t.n));
    lexy::lexeme_input lb(buf, buf.data() + b, buf.data() + e);
    reads(lb.reader(), e - b, [&](int i) { return t.v[b + i]; });
}
// command line: the arguments separated by zero
WITNESS(argv)
{
    char a[3][4]; char prog[2] = {'p', 0}; char* v[5] = {prog, nullptr, nullptr, nullptr, nullptr};
    int k = vp_choice(4), n = 0; char want[12];
    for (int i = 0; i < k; ++i)
    {
        int l = vp_choice(3);
        if (i) want[n++] = 0;
        for (int j = 0; j < l; ++j) want[n++] = a[i][j] = char(vp_any_range(1, 0xFE));
        a[i][l] = 0; v[i + 1] = a[i];
    }
    lexy::argv_input<> in(k + 1, v);
    using E = lexy::default_encoding;
    auto r = in.reader(); int at = vp_choice(n + 1); auto m = r.current();
    for (int i = 0; i < n; ++i)
    {
        if (i == at) m = r.current();
        K(vp_split(r.peek() == E::to_int_type(want[i])), "argv_input presents another code unit");
        K(k > 0 && vp_split(*r.position() == want[i]), "the position of argv_input is at another code unit");
        r.bump();
    }
    K(r.peek() == E::eof(), "argv_input does not end after the last argument");
    if (at == n) m = r.current();
    if (k > 0) { auto b = lexy::argv_begin(k + 1, v), e = lexy::argv_end(k + 1, v); for (int i = n; i-- > 0;) { K(e != b, "argv iterators reach the begin too early"); --e; K(vp_split(*e == want[i]), "argv iterators go back to another code unit"); } K(e == b, "argv iterators do not reach the begin"); }
    r.reset(m);
    for (int i = at; i < n; ++i) { K(vp_split(r.peek() == E::to_int_type(want[i])), "argv_input presents another code unit after going back"); r.bump(); }
    K(r.peek() == E::eof(), "argv_input does not end after going back");
    vp_cover_decl("end"); vp_cover("end");
}
WITNESS(argv_empty) { char* v[1] = {nullptr}; lexy::argv_input<> in(0, v); K(in.reader().peek() == lexy::default_encoding::eof(), "argv_input without program name is not empty"); lexy::argv_input<> d; K(d.reader().peek() == lexy::default_encoding::eof(), "a default argv_input is not empty"); vp_cover_decl("end"); vp_cover("end"); }
