// C13: replacing occurrences of a text or code point.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using namespace ystring;

// The reference: n < 0 replaces from the end.
INL void ref_replace(Out<3 * TEXT_BYTES>& out, std::string_view s, std::string_view from, std::string_view to, ptrdiff_t n)
{
    bool hit[TEXT_BYTES] = {};
    size_t count = 0;
    auto at = [&](size_t i)
    {
        unsigned d = 0;
        for (size_t k = 0; k < from.size(); ++k)
            d |= (unsigned char)(s[i + k] ^ from[k]);
        return d == 0;
    };
    if (!from.empty() && n >= 0)
    {
        for (size_t i = 0; i + from.size() <= s.size();)
        {
            if ((ptrdiff_t)count < n && at(i))
            {
                hit[i] = true;
                ++count;
                i += from.size();
            }
            else
                ++i;
        }
    }
    else if (!from.empty())
    {
        for (size_t end = s.size(); end >= from.size();)
        {
            if (-(ptrdiff_t)count > n && at(end - from.size()))
            {
                hit[end - from.size()] = true;
                ++count;
                end -= from.size();
            }
            else
                --end;
        }
    }
    for (size_t i = 0; i < s.size();)
    {
        if (hit[i])
        {
            out.text(to);
            i += from.size();
        }
        else
            out.byte(s[i++]);
    }
    ys_reach(count == 0 ? "none" : count == 1 ? "one" : "several");
}

extern "C" void ys_main()
{
    Text b;
    auto s = b.view();
    auto n = ys_param("max", 0) ? PTRDIFF_MAX : (ptrdiff_t)limit("n");
    if (ys_param("mode", 0) == 0)
    {
        Text2 f("from");
        Text t("to", "fill3", "len3", "tail3", "style3");
        Out<3 * TEXT_BYTES> want;
        ref_replace(want, s, f.view(), t.view(), n);
        auto got = replace(s, f.view(), t.view(), n);
        ys_check(same_bytes(got, want.view()), "replace");
        observe(got);
        if (ys_param("max", 0))
            ys_check(same_bytes(replace(s, f.view(), t.view()), want.view()), "replace all");
        return;
    }
    char32_t from = ys_u32("from"), to = ys_u32("to");
    std::string got;
    bool e = throws([&] { got = replace_codepoint(s, from, to, n); });
    ys_check(e == (from > UNICODE_LAST || to > UNICODE_LAST), "replace_codepoint: throws exactly for invalid values");
    if (e)
    {
        ys_reach("invalid");
        return;
    }
    Out<4> f, t;
    f.cp(from);
    t.cp(to);
    Out<3 * TEXT_BYTES> want;
    ref_replace(want, s, f.view(), t.view(), n);
    ys_check(same_bytes(got, want.view()), "replace_codepoint");
    observe(got);
    ys_reach("codepoint");
}
