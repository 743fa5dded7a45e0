// C20: case-insensitive search, replacement and splitting. to_upper itself is
// decided by C17.
#include "pieces.hpp"
#include "Ystring/ConvertCase.hpp"

namespace ci = ystring::case_insensitive;
using ystring::Subrange;
using ystring::to_upper;

static constexpr size_t N = TEXT;

// Is the needle at the i-th code point?
INL bool at(const Ref<N>& r, const Ref<N>& c, size_t i)
{
    bool m = true;
    for (size_t k = 0; k < c.n; ++k)
        m &= to_upper(r.cp[i + k]) == to_upper(c.cp[k]);
    return m;
}

INL void ref_replace(Out<3 * TEXT_BYTES>& out, std::string_view s, const Ref<N>& r, const Ref<N>& c, std::string_view to, ptrdiff_t n)
{
    bool hit[N] = {};
    size_t count = 0;
    if (c.n && n >= 0)
    {
        for (size_t i = 0; i + c.n <= r.n;)
        {
            if ((ptrdiff_t)count < n && at(r, c, i))
            {
                hit[i] = true;
                ++count;
                i += c.n;
            }
            else
                ++i;
        }
    }
    else if (c.n)
    {
        for (size_t end = r.n; end >= c.n;)
        {
            if (-(ptrdiff_t)count > n && at(r, c, end - c.n))
            {
                hit[end - c.n] = true;
                ++count;
                end -= c.n;
            }
            else
                --end;
        }
    }
    for (size_t i = 0; i < r.n;)
    {
        if (hit[i])
        {
            out.text(to);
            i += c.n;
        }
        else
        {
            out.text(s.substr(r.start[i], r.start[i + 1] - r.start[i]));
            ++i;
        }
    }
    ys_reach(count == 0 ? "none" : count == 1 ? "one" : "several");
}

extern "C" void ys_main()
{
    Text b;
    auto s = b.view();
    Ref<N> r(s);
    ys_assume(r.text());
    part_by_shape(r);
    unsigned mode = (unsigned)ys_param("mode", 0);
    if (mode == 4)
    {
        // Splitting at characters.
        size_t k = ys_param("len2", 1);
        char32_t c[32];
        for (size_t i = 0; i < k; ++i)
            c[i] = ys_u32("c");
        auto p = any_params();
        auto got = ci::split(s, std::u32string_view(c, k), p);
        check_pieces(s, got, p, [&](size_t from, size_t& st, size_t& en)
        {
            for (size_t i = 0; i < r.n; ++i)
            {
                if (r.start[i] < from)
                    continue;
                bool m = false;
                for (size_t j = 0; j < k; ++j)
                    m |= to_upper(r.cp[i]) == to_upper(c[j]);
                if (m)
                {
                    st = r.start[i];
                    en = r.start[i + 1];
                    return true;
                }
            }
            return false;
        });
        ys_reach("characters");
        return;
    }
    Text2 nb("needle");
    auto needle = nb.view();
    Ref<N> c(needle);
    ys_assume(c.text());
    if (mode == 0 || mode == 1)
    {
        size_t from = place("at", r.n), off = r.start[from];
        Subrange got;
        bool found = false;
        size_t where = 0;
        if (mode == 0)
        {
            got = from == 0 && ys_u1("default") ? ci::find_first(s, needle) : ci::find_first(s, needle, off);
            for (size_t i = from; i + c.n <= r.n && !found; ++i)
                if (at(r, c, i))
                {
                    found = true;
                    where = i;
                }
        }
        else
        {
            if (from == r.n && ys_u1("beyond"))
            {
                off = ys_u64("offset");
                ys_assume(off > s.size());
            }
            got = ci::find_last(s, needle, off);
            for (size_t i = from + 1; i-- > 0 && !found;)
                if (i + c.n <= from && at(r, c, i))
                {
                    found = true;
                    where = i;
                }
        }
        if (found)
            ys_check(got.offset == r.start[where] && got.end() == r.start[where + c.n], mode ? "last" : "first");
        else
            ys_check(got.length == 0, mode ? "no last" : "no first");
        ys_reach(mode ? found ? "last" : "no last" : found ? "first" : "no first");
        if (found && got.length != needle.size())
            ys_reach("other length");
    }
    else if (mode == 2)
    {
        auto n = ys_param("max", 0) ? PTRDIFF_MAX : (ptrdiff_t)limit("n");
        Out<3 * TEXT_BYTES> want;
        Text to("to", "fill3", "len3", "tail3", "style3");
        ref_replace(want, s, r, c, to.view(), n);
        auto got = ys_param("max", 0) ? ci::replace(s, needle, to.view()) : ci::replace(s, needle, to.view(), n);
        ys_check(same_bytes(got, want.view()), "replace");
        observe(got);
    }
    else
    {
        auto p = any_params();
        auto got = ci::split(s, needle, p);
        check_pieces(s, got, p, [&](size_t from, size_t& st, size_t& en)
        {
            for (size_t i = 0; i + c.n <= r.n; ++i)
            {
                if (r.start[i] >= from && at(r, c, i))
                {
                    st = r.start[i];
                    en = r.start[i + c.n];
                    return true;
                }
            }
            return false;
        });
    }
}
