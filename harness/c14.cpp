// C14: splitting and joining.
#include "pieces.hpp"

using namespace ystring;

INL bool matches(std::string_view s, size_t i, std::string_view sep)
{
    unsigned d = 0;
    for (size_t k = 0; k < sep.size(); ++k)
        d |= (unsigned char)(s[i + k] ^ sep[k]);
    return d == 0;
}

INL bool find_sep(std::string_view s, std::string_view sep, size_t from, size_t& start, size_t& end)
{
    for (size_t i = from; i + sep.size() <= s.size(); ++i)
    {
        if (matches(s, i, sep))
        {
            start = i;
            end = i + sep.size();
            return true;
        }
    }
    return false;
}

extern "C" void ys_main()
{
    unsigned mode = (unsigned)ys_param("mode", 0);
    Text b;
    auto s = b.view();
    size_t len2 = ys_param("len2", 1);
    if (mode == 0)
    {
        Text2 sep("sep");
        auto p = any_params();
        auto got = split(s, sep.view(), p);
        check_pieces(s, got, p, [&](size_t from, size_t& st, size_t& en) { return find_sep(s, sep.view(), from, st, en); });
        if (!p.ignore_empty)
        {
            auto j = join(got.begin(), got.end(), sep.view());
            ys_check(same_bytes(j, s), "join undoes split");
        }
    }
    else if (mode == 1)
    {
        Ref<TEXT> r(s);
        ys_assume(r.text());
        part_by_shape(r);
        char32_t c[32];
        for (size_t i = 0; i < len2; ++i)
            c[i] = ys_u32("c");
        auto p = any_params();
        auto got = split(s, std::u32string_view(c, len2), p);
        size_t next = 0;
        check_pieces(s, got, p, [&](size_t from, size_t& st, size_t& en)
        {
            while (r.start[next] < from)
                ++next;
            for (size_t i = next; i < r.n; ++i)
            {
                bool m = false;
                for (size_t k = 0; k < len2; ++k)
                    m |= r.cp[i] == c[k];
                if (m)
                {
                    st = r.start[i];
                    en = r.start[i + 1];
                    return true;
                }
            }
            return false;
        });
        ys_reach("characters");
    }
    else if (mode == 2)
    {
        Text2 sep("sep");
        TokenIterator it(s, [&](std::string_view t) { return find_first(t, sep.view()); });
        ys_check(it.remainder().data() == s.data() && it.remainder().size() == s.size(), "nothing taken yet");
        ys_check(it.part().empty() && it.token().empty(), "no piece yet");
        size_t from = 0;
        for (size_t n = 0; n <= s.size() + 1; ++n)
        {
            size_t st = s.size(), en = s.size();
            bool more = it.next();
            ys_check(more, "next");
            if (!more)
                return;
            bool found = find_sep(s, sep.view(), from, st, en);
            ys_check(is_slice(it.part(), s, from, st), "part");
            ys_check(is_slice(it.token(), s, st, en), "token");
            ys_check(is_slice(it.remainder(), s, en, s.size()), "remainder");
            ys_check(bool(it) == found, "found");
            from = en;
            if (!found)
                break;
            ys_reach("token");
        }
        ys_check(!it.next() && !it.next(), "ends");
        ys_reach("tokens");
    }
    else
    {
        SymBuf d(len2, "delimiter");
        std::vector<std::string> v;
        Out<128> want;
        size_t k = ys_param("pieces", 2);
        for (size_t i = 0; i < k; ++i)
        {
            SymBuf x(ys_param("len", 4) / (i + 1), "piece");
            v.emplace_back(x.view());
            if (i)
                want.text(d.view());
            want.text(x.view());
        }
        ys_check(same_bytes(join(v.begin(), v.end(), d.view()), want.view()), "join");
        if (len2 == 0)
            ys_check(same_bytes(join(v.begin(), v.end()), want.view()), "join without a delimiter");
        ys_reach("join");
    }
}
