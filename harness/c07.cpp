// C07: code point counting and positions agree from both ends.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using namespace ystring;

extern "C" void ys_main()
{
    Text b;
    std::string_view s = b.view();
    Ref<TEXT> r(s);
    ys_assume(r.valid);
    part_by_shape(r);
    ys_check(count_codepoints(s) == r.n, "count_codepoints");

    auto i = pick("i", r.n);
    auto n = (ptrdiff_t)r.n;
    size_t pos = get_codepoint_pos(s, i);
    ys_observe(pos);
    size_t want = std::string_view::npos;
    for (ptrdiff_t k = 0; k <= n; ++k)
    {
        if (i == k || (k < n && i == k - n))
            want = r.start[k];
    }
    ys_check(pos == want, "get_codepoint_pos");
    if (pos == std::string_view::npos)
        ys_reach("npos");
    else
        ys_reach("pos");

    auto [sub, c] = get_codepoint(s, i);
    bool found = false;
    for (ptrdiff_t k = 0; k < n; ++k)
    {
        if (i == k || i == k - n)
        {
            found = true;
            ys_check(sub.offset == r.start[k] && sub.length == r.start[k + 1] - r.start[k], "get_codepoint range");
            ys_check(c == r.cp[k], "get_codepoint value");
            ys_reach("codepoint");
        }
    }
    if (!found)
    {
        ys_check(sub.length == 0, "get_codepoint empty");
        ys_check(c == INVALID_CHAR, "get_codepoint INVALID_CHAR");
    }
    ys_observe(sub.offset);
    ys_observe(sub.length);
    ys_observe(c);
}
