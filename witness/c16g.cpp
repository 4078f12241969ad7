// The growing buffer behind read_stdin and the shell.
#include "vp.hpp"
#include <type_traits>
#include <lexy/_detail/buffer_builder.hpp>
#define CHECK(c, m) VP_CHECK("C16", c, m)
namespace
{
template <typename C> inline void growing(int grows)
{
    vp_exact(); vp_cover_decl("done");
    {
        lexy::_detail::buffer_builder<C> b;
        C        first = C(vp_any(sizeof(C) * 8)), last = C(vp_any(sizeof(C) * 8)), mid = C(vp_any(sizeof(C) * 8)), next = C(vp_any(sizeof(C) * 8));
        auto     w = b.write_size();
        CHECK(w > 2, "no initial space");
        b.write_data()[0] = first;
        b.write_data()[w / 2] = mid;
        b.write_data()[w - 1] = last;
        for (std::size_t i = 1; i < w - 1; ++i) if (i != w / 2) b.write_data()[i] = C(0);
        b.commit(w);
        CHECK(b.read_size() == w && b.write_size() == 0 && b.capacity() == w, "commit: wrong sizes");
        for (int g = 0; g < grows; ++g)
        {
            b.grow();
            CHECK(b.read_size() == w, "grow: the contents change their size");
            CHECK(b.write_size() > 0, "grow: no space to write");
            CHECK(b.capacity() == b.read_size() + b.write_size(), "grow: wrong capacity");
            b.write_data()[b.write_size() - 1] = next;
        }
        b.write_data()[0] = next;
        b.commit(1);
        auto d = b.read_data();
        CHECK(b.read_size() == w + 1, "commit: wrong size");
        CHECK(d[0] == first && d[w / 2] == mid && d[w - 1] == last && d[w] == next, "grow: the contents change");
        auto cap = b.capacity();
        b.clear();
        CHECK(b.read_size() == 0 && b.write_size() == cap, "clear: wrong sizes");
    }
    CHECK(vp_heap_live() == 0, "memory is not given back");
    vp_cover("done");
}
} // namespace
WITNESS(grow_char) { growing<char>(2); }
WITNESS(grow_char16) { growing<char16_t>(2); }
WITNESS(grow_char32) { growing<char32_t>(2); }
