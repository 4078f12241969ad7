// What the Unicode standard says about code unit sequences.
#pragma once
#include "gen.hpp"
namespace refcp
{
// The reference: what the Unicode standard says about the sequence at p; 0 units = ill-formed there.
struct Ref { unsigned units; uint32_t cp; };
template <typename C> inline bool end(const C* p) { return vp_at_end(p); }
template <typename C>
inline Ref ref8(const C* p)
{
    if (end(p)) return {0, 0};
    uint32_t a = (unsigned char)*p;
    if (a < 0x80) return {1, a};
    if (a < 0xC2 || a > 0xF4) return {0, 0};
    if (end(p + 1)) return {0, 0};
    uint32_t b = (unsigned char)p[1];
    if (a < 0xE0) { if (b < 0x80 || b > 0xBF) return {0, 0}; return {2, (a - 0xC0) * 64 + (b - 0x80)}; }
    uint32_t lo = 0x80, hi = 0xBF;
    if (a == 0xE0) lo = 0xA0;
    if (a == 0xED) hi = 0x9F;
    if (a == 0xF0) lo = 0x90;
    if (a == 0xF4) hi = 0x8F;
    if (b < lo || b > hi) return {0, 0};
    if (end(p + 2)) return {0, 0};
    uint32_t c = (unsigned char)p[2];
    if (c < 0x80 || c > 0xBF) return {0, 0};
    if (a < 0xF0) return {3, (a - 0xE0) * 4096 + (b - 0x80) * 64 + (c - 0x80)};
    if (end(p + 3)) return {0, 0};
    uint32_t d = (unsigned char)p[3];
    if (d < 0x80 || d > 0xBF) return {0, 0};
    return {4, (a - 0xF0) * 262144 + (b - 0x80) * 4096 + (c - 0x80) * 64 + (d - 0x80)};
}
inline Ref ref16(const char16_t* p)
{
    if (end(p)) return {0, 0};
    uint32_t a = *p;
    if (a < 0xD800 || a > 0xDFFF) return {1, a};
    if (a > 0xDBFF) return {0, 0};
    if (end(p + 1)) return {0, 0};
    uint32_t b = p[1];
    if (b < 0xDC00 || b > 0xDFFF) return {0, 0};
    return {2, 0x10000 + (a - 0xD800) * 1024 + (b - 0xDC00)};
}
inline Ref ref32(const char32_t* p)
{
    if (end(p)) return {0, 0};
    uint32_t a = *p;
    if (a > 0x10FFFF || (a >= 0xD800 && a <= 0xDFFF)) return {0, 0};
    return {1, a};
}
inline Ref refascii(const char* p)
{
    if (end(p)) return {0, 0};
    uint32_t a = (unsigned char)*p;
    if (a > 0x7F) return {0, 0};
    return {1, a};
}
inline Ref refof(lexy::utf8_encoding, const LEXY_CHAR8_T* p) { return ref8(p); }
inline Ref refof(lexy::utf8_char_encoding, const char* p) { return ref8(p); }
inline Ref refof(lexy::utf16_encoding, const char16_t* p) { return ref16(p); }
inline Ref refof(lexy::utf32_encoding, const char32_t* p) { return ref32(p); }
inline Ref refof(lexy::ascii_encoding, const char* p) { return refascii(p); }
} // namespace refcp
