// C11: substring search finds exactly the first or last occurrence.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using namespace ystring;

INL bool match_at(std::string_view s, std::string_view f, size_t i)
{
    for (size_t k = 0; k < f.size(); ++k)
        if (s[i + k] != f[k])
            return false;
    return true;
}

extern "C" void ys_main()
{
    Text b;
    Text2 f("needle");
    size_t len = b.n, n = f.n;
    std::string_view s = b.view(), w = f.view();
    unsigned mode = (unsigned)ys_param("mode", 0);
    if (mode == 0)
    {
        size_t off = place("offset", len);
        ys_part(off);
        auto r = find_first(s, w, off);
        bool found = false;
        for (size_t i = off; i + n <= len && !found; ++i)
        {
            if (match_at(s, w, i))
            {
                found = true;
                ys_check(r.offset == i && r.length == n, "find_first: the first occurrence");
                ys_reach("first");
            }
        }
        if (!found)
        {
            ys_check(r.length == 0, "find_first: nothing to be found");
            ys_reach("none");
        }
        if (off == 0)
        {
            auto q = find_first(s, w);
            ys_check(q == r, "find_first: default offset");
        }
        ys_observe(r.offset);
        ys_observe(r.length);
    }
    else if (mode == 1)
    {
        uint64_t any = ys_param("few", 0) ? place("offset", len) : ys_u64("offset");
        size_t end = len;
        for (size_t k = 0; k < len; ++k)
            if (any == k)
                end = k;
        ys_part(end);
        auto r = find_last(s, w, any);
        bool found = false;
        for (size_t i = end + 1; i-- > 0 && !found;)
        {
            if (i + n <= end && match_at(s, w, i))
            {
                found = true;
                ys_check(r.offset == i && r.length == n, "find_last: the last occurrence");
                ys_reach("last");
            }
        }
        if (!found)
        {
            ys_check(r.length == 0, "find_last: nothing to be found");
            ys_reach("none last");
        }
        if (end == len)
        {
            auto q = find_last(s, w);
            ys_check(q == r, "find_last: default offset");
        }
        ys_observe(r.offset);
        ys_observe(r.length);
    }
    else
    {
        bool a = n <= len && match_at(s, w, 0);
        ys_check(starts_with(s, w) == a, "starts_with");
        bool z = n <= len && match_at(s, w, len - n);
        ys_check(ends_with(s, w) == z, "ends_with");
        if (a)
            ys_reach("starts");
        if (z)
            ys_reach("ends");
    }
}
