// C27: composition of strings.
#include "ucd_ref.hpp"
#include "Ystring/Normalize.hpp"

using namespace ystring;

// Standard encoding, of values that the decoder accepts.
static std::string_view text(char32_t c, char* buf) { return {buf, ref_encode(c, buf)}; }

// What a and b compose to (as decided by mode 0), or 0.
static char32_t pair_composed(char32_t a, char32_t b)
{
    Out<8> t;
    t.cp(a);
    t.cp(b);
    auto u = to_composed(t.view());
    if (u.size() == t.n && same_bytes(u, t.view()))
        return 0;
    char32_t c = 0;
    ref_decode(u.data(), 0, u.size(), c);
    return c;
}

extern "C" void ys_main()
{
    unsigned mode = (unsigned)ys_param("mode", 0);
    if (mode == 0)
    {
        // Every pair of code points.
        char32_t a = ranged_char("a"), b = ys_u32("b");
        ys_assume(a <= UNICODE_LAST);
        ys_assume(b <= UNICODE_LAST);
        Out<8> t;
        t.cp(a);
        t.cp(b);
        char32_t c = ucd_composed(a, b);
        auto got = to_composed(t.view());
        char buf[4];
        ys_check(same_bytes(got, c ? text(c, buf) : t.view()), "pair");
        observe(got);
        ys_reach(c ? "composed pair" : "pair");
        return;
    }
    if (mode == 3)
    {
        // Composing undoes decomposing.
        char32_t c = ranged_char("c");
        ys_assume(c <= UNICODE_LAST);
        if (!ucd_parts(c))
            return;
        char buf[4];
        auto t = text(c, buf);
        ys_check(same_bytes(to_composed(to_decomposed(t)), t), "composing undoes decomposing");
        ys_reach("decomposable");
        return;
    }
    UcdText t;
    auto s = t.s;
    auto& r = t.r;
    auto got = to_composed(s);
    if (mode == 1)
    {
        Out<2 * TEXT_BYTES> want;
        for (size_t i = 0; i < r.n;)
        {
            char32_t c = r.cp[i];
            size_t j = i + 1;
            for (; j < r.n; ++j)
            {
                char32_t x = pair_composed(c, r.cp[j]);
                if (!x)
                    break;
                c = x;
            }
            if (j == i + 1)
                want.text(s.substr(r.start[i], r.start[j] - r.start[i]));
            else
                want.cp(c);
            i = j;
        }
        ys_check(same_bytes(got, want.view()), "to_composed");
        observe(got);
        ys_reach(got.size() == s.size() ? "unchanged" : "composed");
    }
    else
    {
        // The code points, as overlong encodings do not survive composition.
        Ref<2 * TEXT> a(to_decomposed(got)), d(to_decomposed(s));
        bool same = a.valid && d.valid && a.n == d.n;
        for (size_t i = 0; same && i < a.n; ++i)
            same &= a.cp[i] == d.cp[i];
        ys_check(same, "same decomposition");
        ys_reach("same decomposition");
    }
}
