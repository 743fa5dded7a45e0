// C16: trimming.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using namespace ystring;

template <typename Match, typename Start, typename End, typename Both>
INL void check_trim(std::string_view s, const Ref<TEXT>& r, Match match, Start start, End end, Both both)
{
    size_t i = 0, j = r.n;
    while (i < r.n && match(r.cp[i]))
        ++i;
    while (j > 0 && match(r.cp[j - 1]))
        --j;
    size_t n = s.size(), a = r.start[i], b = r.start[j];
    auto x = start(s);
    ys_check(is_slice(x, s, a, n), "trim_start");
    auto y = end(s);
    ys_check(is_slice(y, s, 0, b), "trim_end");
    auto z = both(s);
    ys_check(is_slice(z, s, a, i == r.n ? a : b), "trim");
    ys_observe(x.size());
    ys_observe(y.size());
    ys_observe(z.size());
    ys_reach(i == r.n ? "everything" : i == 0 && j == r.n ? "nothing" : "something");
    auto zz = both(z);
    ys_check(zz.size() == z.size() && (z.empty() || zz.data() == z.data()), "again");
}

extern "C" void ys_main()
{
    Text b;
    auto s = b.view();
    Ref<TEXT> r(s);
    ys_assume(r.text());
    part_by_shape(r);
    unsigned mode = (unsigned)ys_param("mode", 0);
    if (mode == 0)
    {
        char32_t c[32];
        size_t k = ys_param("chars", 1);
        for (size_t i = 0; i < k; ++i)
            c[i] = ys_u32("c");
        std::u32string_view v(c, k);
        check_trim(s, r,
                   [&](char32_t x)
                   {
                       bool m = false;
                       for (size_t i = 0; i < k; ++i)
                           m |= c[i] == x;
                       return m;
                   },
                   [&](std::string_view t) { return trim_start(t, v); }, [&](std::string_view t) { return trim_end(t, v); },
                   [&](std::string_view t) { return trim(t, v); });
    }
    else if (mode == 1)
    {
        check_trim(s, r, [&](char32_t x) { return bool(x == ' ' | x == '\t' | x == '\n' | x == '\r'); },
                   [&](std::string_view t) { return trim_start(t); }, [&](std::string_view t) { return trim_end(t); },
                   [&](std::string_view t) { return trim(t); });
    }
    else
    {
        char32_t lo = ys_u32("lo"), mask = ys_u32("mask");
        auto match = [&](char32_t x) { return (x & mask) == lo; };
        check_trim(s, r, match, [&](std::string_view t) { return trim_start_where(t, match); },
                   [&](std::string_view t) { return trim_end_where(t, match); },
                   [&](std::string_view t) { return trim_where(t, match); });
    }
}
