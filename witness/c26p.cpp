// lexy_ext::default_prompt reads lines from stdin as the Prompt concept demands: whatever it is given room for, it
// delivers the next characters up to and including the newline, and less than it has room for only if the line or the
// input is over.
#define _FORTIFY_SOURCE 0
#include "vp.hpp"
#include <cstdio>
#include <cstring>
#include <lexy_ext/shell.hpp>
#define K(cond, msg) VP_CHECK("C26", cond, msg)
static unsigned char txt[8];
static int           len, at, eof_seen;
extern "C"
{
#undef getc
#undef stdin
FILE* stdin;
#define stdin stdin
int fgetc(FILE*)
{
    if (at == len) { eof_seen = 1; return -1; }
    return txt[at++];
}
int getc(FILE* f) { return fgetc(f); }
int feof(FILE*) noexcept { return eof_seen; }
int ferror(FILE*) noexcept { return 0; }
char* fgets(char* s, int n, FILE* f)
{
    int i = 0;
    while (i < n - 1)
    {
        int c = fgetc(f);
        if (c < 0) break;
        s[i++] = char(c);
        if (vp_split(c == '\n')) break;
    }
    if (i == 0) return nullptr;
    s[i] = 0;
    return s;
}
size_t strlen(const char* s) noexcept
{
    size_t n = 0;
    while (vp_split(s[n] != 0)) ++n;
    return n;
}
}
WITNESS(default_prompt)
{
    vp_exact();
    len = vp_choice(6); at = 0; eof_seen = 0;
    for (int i = 0; i < len; ++i) txt[i] = vp_choice(2) ? '\n' : (unsigned char)vp_any_range(0, 255);
    lexy_ext::default_prompt<> pr;
    vp_cover_decl("line"); vp_cover_decl("full"); vp_cover_decl("end");
    int pos = 0;
    for (int k = 0; k < 3; ++k)
    {
        char   buf[5];
        size_t size = 2 + vp_choice(3);
        auto   cb = pr.read_line();
        auto   n = cb(buf, size);
        K(n <= size, "the prompt delivers more than there is room for");
        for (size_t i = 0; i < n; ++i)
        {
            K(pos < len, "the prompt delivers characters nobody entered");
            K(vp_split((unsigned char)buf[i] == txt[pos]), "the prompt delivers another character");
            if (i + 1 < n) K(vp_split(buf[i] != '\n'), "the prompt goes on after the end of the line");
            ++pos;
        }
        K(at == pos, "the prompt loses characters");
        if (n > 0 && vp_split(buf[n - 1] == '\n')) { vp_cover("line"); }
        else if (n < size)
        {
            K(pos == len && !pr.is_open(), "the prompt ends a line in its middle");
            vp_cover("end");
            return;
        }
        else vp_cover("full");
    }
}
