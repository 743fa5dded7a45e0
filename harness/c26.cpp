// C26: decomposition of code points and strings.
#include "ucd_ref.hpp"
#include "Ystring/Normalize.hpp"

using namespace ystring;

// The full recursive expansion.
struct Parts
{
    size_t n = 1;
    char32_t p[16];
    INL explicit Parts(char32_t c)
    {
        p[0] = c;
        for (size_t i = 0; i < n;)
        {
            auto* d = ucd_parts(p[i]);
            if (!d)
            {
                ++i;
                continue;
            }
            for (size_t k = n; k > i + 1; --k)
                p[k] = p[k - 1];
            ++n;
            p[i] = d->a;
            p[i + 1] = d->b;
        }
    }
};

extern "C" void ys_main()
{
    unsigned mode = (unsigned)ys_param("mode", 0);
    if (mode == 0)
    {
        char32_t c = ranged_char("c");
        auto got = decompose(c);
        Parts want(c);
        ys_check(got.size() == want.n, "decompose: length");
        bool same = true;
        for (size_t i = 0; i < want.n; ++i)
            same &= got[i] == want.p[i];
        ys_check(same, "decompose: code points");
        for (char32_t x : got)
            ys_observe(x);
        ys_reach(want.n == 1 ? "itself" : want.n == 2 ? "two" : "more");
        return;
    }
    UcdText t;
    auto s = t.s;
    auto& r = t.r;
    auto got = to_decomposed(s);
    if (mode == 1)
    {
        // Each code point as decided by mode 0.
        Out<2 * TEXT_BYTES> want;
        for (size_t i = 0; i < r.n; ++i)
        {
            auto d = decompose(r.cp[i]);
            if (d.size() == 1)
                want.text(s.substr(r.start[i], r.start[i + 1] - r.start[i]));
            else
                for (char32_t x : d)
                    want.cp(x);
        }
        ys_check(same_bytes(got, want.view()), "to_decomposed");
        observe(got);
        ys_reach(got.size() == s.size() ? "unchanged" : "decomposed");
    }
    else
    {
        ys_check(same_bytes(to_decomposed(got), got), "idempotent");
        ys_reach("idempotent");
    }
}
