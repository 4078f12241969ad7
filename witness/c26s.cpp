// The interactive shell presents exactly the characters the prompt delivered, then the end.
#include "vp.hpp"
#include <lexy_ext/shell.hpp>
#define K(cond, msg) VP_CHECK("C26", cond, msg)
struct World
{
    char txt[12];
    int  n = 0;      // delivered since the last prompt for input
    int  lines = 0;  // lines asked for
    bool open = true;
};
struct Prompt
{
    using encoding = lexy::default_encoding;
    using char_type = char;
    World* w;
    void primary_prompt() {}
    void continuation_prompt() {}
    void eof_prompt() {}
    bool is_open() const noexcept { return w->open; }
    struct read_line_callback
    {
        World* w;
        std::size_t operator()(char* buffer, std::size_t size)
        {
            K(size > 4, "the shell asks for a line without room for it");
            int k = vp_choice(3);
            if (w->lines++ >= 3) { w->open = false; return 0; } // enough
            for (int i = 0; i < k; ++i) { char c = char(vp_any_range('a', 'c')); buffer[i] = c; w->txt[w->n++] = c; }
            if (vp_choice(2)) { w->open = false; return std::size_t(k); } // end of the input in the line
            buffer[k] = '\n'; w->txt[w->n++] = '\n';
            return std::size_t(k + 1);
        }
        void done() && {}
    };
    auto read_line() { return read_line_callback{w}; }
};
WITNESS(shell)
{
    using E = lexy::default_encoding;
    World w;
    lexy_ext::shell<Prompt> sh(Prompt{&w});
    vp_cover_decl("end");
    for (int round = 0; round < 2 && sh.is_open(); ++round)
    {
        w.n = 0;
        auto in = sh.prompt_for_input();
        auto r  = in.reader();
        int  stop = vp_choice(4), i = 0;
        while (true)
        {
            auto c = r.peek();
            if (vp_split(c == E::eof()))
            {
                K(i == w.n, "the shell ends before all characters were read");
                K(!w.open, "the shell ends although the prompt is open");
                K(r.peek() == E::eof(), "the shell goes on after its end");
                vp_cover("end");
                return;
            }
            K(i < w.n, "the shell presents a character nobody entered");
            K(vp_split(c == E::to_int_type(w.txt[i])), "the shell presents another character");
            auto m = r.current(); auto p = r.position();
            K(vp_split(*p == w.txt[i]), "the position is at another character");
            r.bump(); r.reset(m); K(r.position() == p && vp_split(r.peek() == c), "the shell does not go back to the marker");
            r.bump(); ++i;
            if (i == stop * 2 && c == '\n') break; // the parser is done with this input
        }
    }
}
// a line longer than the buffer
static int full;
struct Long : Prompt
{
    struct read_line_callback
    {
        World* w;
        std::size_t operator()(char* buffer, std::size_t size)
        {
            if (full) { buffer[0] = 'z'; buffer[1] = '\n'; return 2; }
            full = int(size);
            for (std::size_t i = 0; i < size; ++i) buffer[i] = 'a';
            return size;
        }
        void done() && {}
    };
    auto read_line() { return read_line_callback{w}; }
};
WITNESS(shell_long)
{
    using E = lexy::default_encoding;
    vp_exact(); World w; full = 0;
    lexy_ext::shell<Long> sh(Long{{&w}});
    auto in = sh.prompt_for_input(); auto r = in.reader();
    int n = full;
    for (int i = 0; i < n; ++i) { K(r.peek() == 'a', "the shell loses a character of a long line"); r.bump(); }
    K(r.peek() == 'z', "the shell loses the rest of a long line"); r.bump();
    K(r.peek() == '\n', "the shell loses the end of a long line");
    vp_cover_decl("end"); vp_cover("end");
}
