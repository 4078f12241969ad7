// Captures what is written to an output iterator. Numbers that go through snprintf are kept as values next to the text.
#pragma once
#ifndef VISPROP
#define VISPROP "C28"
#endif
#include <cstdio>
#include "refcp.hpp"
namespace vp
{
struct Num { int at, width; unsigned long v; };
struct Out
{
    static constexpr int CAP = 700, NUMS = 48;
    int  n = 0, nn = 0;
    char s[CAP];
    Num  num[NUMS];
    void put(char c) { if (n < CAP) s[n++] = c; }
    void text(const char* t) { while (*t) put(*t++); }
    void text8(const LEXY_CHAR8_T* t) { while (*t) put(char(*t++)); }
    bool operator==(const Out& o) const
    {
        if (n != o.n) return false;
        if (nn != o.nn) return by_hand(o);
        for (int i = 0; i < n; ++i) if (!vp_split(s[i] == o.s[i])) return false;
        for (int i = 0; i < nn; ++i) if (num[i].at != o.num[i].at || num[i].width != o.num[i].width || !vp_split(num[i].v == o.num[i].v)) return false;
        return true;
    }
    bool number_at(int i) const { for (int k = 0; k < nn; ++k) if (i >= num[k].at && i < num[k].at + num[k].width) return true; return false; }
    // numbers that do not go through snprintf: which ones they are is not decided
    bool by_hand(const Out& o) const
    {
        for (int i = 0; i < n; ++i)
            if (number_at(i) || o.number_at(i)) { if (!vp_split(digit(s[i])) || !vp_split(digit(o.s[i]))) return false; }
            else if (!vp_split(s[i] == o.s[i])) return false;
        vp_imprecise();
        return true;
    }
    static bool digit(char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
    void append(const Out& o) { for (int i = 0; i < o.nn; ++i) if (nn < NUMS) { num[nn] = o.num[i]; num[nn++].at += n; } for (int i = 0; i < o.n; ++i) put(o.s[i]); }
    // without the escape sequences of colours; -1 if there is something else after an escape character
    bool plain(Out& to) const
    {
        int k = 0;
        for (int i = 0; i < n; ++i)
        {
            while (k < nn && num[k].at == i) { to.num[to.nn] = num[k++]; to.num[to.nn++].at = to.n; }
            if (!vp_split(s[i] == '\033')) { to.put(s[i]); continue; }
            if (++i >= n || s[i] != '[') return false;
            do { if (++i >= n) return false; } while ((s[i] >= '0' && s[i] <= '9') || s[i] == ';');
            if (s[i] != 'm') return false;
        }
        return true;
    }
};
inline Out* formatting; // where numbers are written to
struct OutIt
{
    using iterator_category = void; using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
    Out* o;
    OutIt& operator*() { return *this; }
    OutIt& operator++() { return *this; }
    OutIt  operator++(int) { return *this; }
    OutIt& operator=(char c) { o->put(c); return *this; }
};
// %[0][width](X|x|u|d|zd|zu): a run of 0 of the length of the number
inline int format(char* b, unsigned long cap, const char* f, const unsigned long* a, int na)
{
    unsigned long n = 0; int k = 0;
    auto w = [&](char c) { if (n + 1 < cap) b[n] = c; ++n; };
    for (; *f; ++f)
    {
        if (*f != '%') { w(*f); continue; }
        ++f;
        bool zero = *f == '0'; int width = 0;
        for (; *f >= '0' && *f <= '9'; ++f) width = width * 10 + (*f - '0');
        while (*f == 'z' || *f == 'l') ++f;
        unsigned long base = *f == 'X' || *f == 'x' ? 16 : 10;
        VP_CHECK(VISPROP, k < na, "a number is formatted that is not there");
        unsigned long v = a[k++]; int digits = 1;
        for (unsigned long m = base; digits < 10 && vp_split(v >= m); m *= base) ++digits;
        for (; !zero && digits < width; --width) w(' ');
        if (digits < width) digits = width;
        if (formatting && formatting->nn < Out::NUMS) formatting->num[formatting->nn++] = {int(formatting->n + n), digits, v};
        for (int i = 0; i < digits; ++i) w('0');
    }
    if (cap) b[n < cap ? n : cap - 1] = 0;
    return int(n);
}
} // namespace vp
namespace std
{
template <typename... A>
inline int vp_snprintf(char* b, unsigned long n, const char* f, A... a)
{
    unsigned long v[sizeof...(A) + 1] = {static_cast<unsigned long>(a)...};
    return vp::format(b, n, f, v, int(sizeof...(A)));
}
}
#define snprintf vp_snprintf
#include <lexy/visualize.hpp>
#undef snprintf
