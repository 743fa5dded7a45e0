// C15: newlines.
#include "pieces.hpp"
#include "Ystring/CodepointPredicates.hpp"

using namespace ystring;

INL bool newline(char32_t c)
{
    return c == 10 | c == 11 | c == 12 | c == 13 | c == 0x85 | c == 0x2028 | c == 0x2029;
}

extern "C" void ys_main()
{
    unsigned mode = (unsigned)ys_param("mode", 0);
    if (mode == 2)
    {
        char32_t c = ys_u32("c");
        ys_check(is_newline(c) == newline(c), "is_newline");
        ys_reach("is_newline");
        return;
    }
    Text b;
    auto s = b.view();
    Ref<TEXT> r(s);
    ys_assume(r.text());
    part_by_shape(r);
    if (mode == 0)
    {
        size_t at = place("at", r.n);
        size_t i = at;
        while (i < r.n && !newline(r.cp[i]))
            ++i;
        auto f = find_first_newline(s, r.start[at]);
        if (at == 0)
            ys_check(f == find_first_newline(s), "default start");
        if (i == r.n)
            ys_check(f.length == 0, "first: none");
        else
        {
            size_t e = i + 1;
            if (r.cp[i] == 13 && e < r.n && r.cp[e] == 10)
            {
                ++e;
                ys_reach("first CR LF");
            }
            ys_check(f.offset == r.start[i] && f.end() == r.start[e], "first newline");
            ys_reach("first");
        }
        ys_observe(f.length);
        size_t off = r.start[at];
        if (at == r.n && ys_u1("beyond"))
        {
            off = ys_u64("offset");
            ys_assume(off > s.size());
        }
        auto l = find_last_newline(s, off);
        if (at == r.n)
            ys_check(l == find_last_newline(s), "default end");
        i = at;
        while (i > 0 && !newline(r.cp[i - 1]))
            --i;
        if (i == 0)
            ys_check(l.length == 0, "last: none");
        else
        {
            size_t e = i--;
            if (r.cp[i] == 10 && i > 0 && r.cp[i - 1] == 13)
            {
                --i;
                ys_reach("last CR LF");
            }
            ys_check(l.offset == r.start[i] && l.end() == r.start[e], "last newline");
            ys_reach("last");
        }
        ys_observe(l.length);
        return;
    }
    auto p = any_params();
    auto got = split_lines(s, p);
    size_t next = 0;
    check_pieces(s, got, p, [&](size_t from, size_t& st, size_t& en)
    {
        while (r.start[next] < from)
            ++next;
        for (size_t i = next; i < r.n; ++i)
        {
            if (!newline(r.cp[i]))
                continue;
            st = r.start[i];
            en = r.start[i + 1];
            if (r.cp[i] == 13 && i + 1 < r.n && r.cp[i + 1] == 10)
                en = r.start[i + 2];
            return true;
        }
        return false;
    });
    ys_reach("lines");
}
