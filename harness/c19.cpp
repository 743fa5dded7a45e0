// C19: case-insensitive comparison. to_upper itself is decided by C17.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/CaseInsensitive.hpp"

namespace ci = ystring::case_insensitive;
using ystring::to_upper;

INL int sign(int32_t x) { return (x > 0) - (x < 0); }

// -1, 0 or 1, without branches on the code points.
template <size_t N>
INL int ref_compare(const Ref<N>& a, const Ref<N>& b)
{
    int r = a.n < b.n ? -1 : a.n > b.n;
    size_t n = a.n < b.n ? a.n : b.n;
    for (size_t i = n; i-- > 0;)
    {
        char32_t x = to_upper(a.cp[i]), y = to_upper(b.cp[i]);
        r = x < y ? -1 : x > y ? 1 : r;
    }
    return r;
}

template <size_t N>
INL void unicode(const Ref<N>& r)
{
    for (size_t i = 0; i < r.n; ++i)
        ys_assume(r.cp[i] <= 0x1FFFFF);
}

extern "C" void ys_main()
{
    unsigned mode = (unsigned)ys_param("mode", 0);
    if (mode == 2)
    {
        // Code points; 21 bits are what the decoder can return.
        char32_t a = ys_u32("a"), b = ys_u32("b"), c = ys_u32("c");
        ys_assume(a <= 0x1FFFFF);
        ys_assume(b <= 0x1FFFFF);
        char32_t x = to_upper(a), y = to_upper(b);
        int cmp = sign(ystring::case_insensitive_compare(a, b));
        ys_check(cmp == (x < y ? -1 : x > y), "code points: compare");
        ys_check(sign(ystring::case_insensitive_compare(b, a)) == -cmp, "code points: antisymmetric");
        ys_check(ystring::case_insensitive_equal(a, b) == (cmp == 0), "code points: equal");
        ys_check(ystring::case_insensitive_less(a, b) == (cmp < 0), "code points: less");
        ys_check(ystring::CaseInsensitiveCompare()(a, b) == ystring::case_insensitive_compare(a, b), "functor: compare");
        ys_check(ystring::CaseInsensitiveEqual()(a, b) == (cmp == 0), "functor: equal");
        ys_check(ystring::CaseInsensitiveLess()(a, b) == (cmp < 0), "functor: less");
        (void)c;
        ys_reach("code points");
        return;
    }
    Text b1("a");
    Text2 b2("b");
    auto s = b1.view(), t = b2.view();
    Ref<TEXT> a(s), b(t);
    ys_assume(a.text());
    ys_assume(b.text());
    unicode(a);
    unicode(b);
    part_by_shape(a);
    if (mode == 0)
    {
        int want = ref_compare(a, b), got = sign(ci::compare(s, t));
        ys_check(got == want, "compare");
        ys_check(ci::equal(s, t) == (want == 0), "equal");
        ys_check(ci::less(s, t) == (want < 0), "less");
        ys_observe(got + 1);
        ys_reach(want == 0 ? "same" : want < 0 ? "before" : "after");
    }
    else if (mode == 1)
    {
        bool starts = b.n <= a.n, ends = starts;
        for (size_t i = 0; starts && i < b.n; ++i)
            starts &= to_upper(a.cp[i]) == to_upper(b.cp[i]);
        for (size_t i = 0; ends && i < b.n; ++i)
            ends &= to_upper(a.cp[a.n - b.n + i]) == to_upper(b.cp[i]);
        ys_check(ci::starts_with(s, t) == starts, "starts_with");
        ys_check(ci::ends_with(s, t) == ends, "ends_with");
        ys_reach(starts ? "starts" : "does not start");
        ys_reach(ends ? "ends" : "does not end");
    }
    else
    {
        // Transitivity on strings.
        SymBuf b3(ys_param("len3", 2), "c");
        auto u = b3.view();
        Ref<TEXT> c(u);
        ys_assume(c.text());
        int ab = sign(ci::compare(s, t)), bc = sign(ci::compare(t, u)), ac = sign(ci::compare(s, u));
        ys_check(!(ab <= 0 && bc <= 0) || (ac <= 0 && (ac < 0 || (ab == 0 && bc == 0))), "transitive");
        ys_check(sign(ci::compare(t, s)) == -ab, "antisymmetric");
        ys_reach("transitive");
    }
}
