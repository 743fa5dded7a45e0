// C09: character segmentation is the same from either end and reverse
// respects it.
#include "chars.hpp"
#include "Ystring/Algorithms.hpp"

using namespace ystring;

extern "C" void ys_main()
{
    Text b;
    std::string_view s = b.view();
    Ref<TEXT> r(s);
    ys_assume(r.text());
    part_by_shape(r);
    Chars<TEXT> c(r);
    if (c.n < r.n)
        ys_reach("mark");
    if (ys_param("mode", 0) == 0)
    {
        ys_check(count_chars(s) == c.n, "count_chars");
        for (size_t i = 0; i < c.n; ++i)
        {
            auto f = get_next_char_range(s, c.start[i]);
            ys_check(f.offset == c.start[i] && f.end() == c.start[i + 1], "get_next_char_range");
            auto p = get_prev_char_range(s, c.start[i + 1]);
            ys_check(p.offset == c.start[i] && p.end() == c.start[i + 1], "get_prev_char_range");
            ys_reach("char");
        }
        auto f = get_next_char_range(s, s.size());
        ys_check(f.length == 0, "get_next_char_range at the end");
        auto p = get_prev_char_range(s, 0);
        ys_check(p.length == 0, "get_prev_char_range at the start");
        auto q = reverse(s);
        Out<TEXT_BYTES> want;
        for (size_t i = c.n; i-- > 0;)
            want.text(s.substr(c.start[i], c.start[i + 1] - c.start[i]));
        ys_check(same_bytes(q, want.view()), "reverse");
        observe(q);
        return;
    }
    auto i = pick("i", c.n);
    ptrdiff_t k = ref_index(i, c.n);
    size_t pos = get_char_pos(s, i);
    ys_check(pos == (k < 0 ? std::string_view::npos : c.start[k]), "get_char_pos");
    ys_observe(pos);
    auto g = get_char_range(s, i);
    if (k < 0 || k == (ptrdiff_t)c.n)
    {
        ys_check(g.length == 0, "get_char_range: empty outside the string");
        ys_reach("outside");
    }
    else
    {
        ys_check(g.offset == c.start[k] && g.end() == c.start[k + 1], "get_char_range");
        ys_reach("inside");
    }
}
