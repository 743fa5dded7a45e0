// C22: what a CodepointSet contains. to_upper itself is decided by C17.
#include "common.hpp"
#include "Ystring/CodepointSet.hpp"
#include "Ystring/ConvertCase.hpp"

using namespace ystring;

static char32_t any_codepoint(const char* name)
{
    char32_t c = ys_u32(name);
    ys_assume(c <= UNICODE_LAST);
    return c;
}

// What was added.
struct Added
{
    size_t n = 0;
    char32_t first[600], last[600];
    bool single[600];

    INL void add(char32_t f, char32_t l, bool one)
    {
        first[n] = f;
        last[n] = l;
        single[n++] = one;
    }

    INL bool contains(char32_t c) const
    {
        bool r = false;
        for (size_t i = 0; i < n; ++i)
            r |= (first[i] <= c) & (c <= last[i]);
        return r;
    }
};

// Fixed operations: k of some kind and order.
static void add_fixed(CodepointSet& set, Added& added, size_t k)
{
    for (size_t i = 0; i < k; ++i)
    {
        char32_t c = 0;
        bool one = true;
        switch (ys_param("style", 0))
        {
        case 0: c = char32_t('A' + 3 * i); break;                      // upwards
        case 1: c = char32_t(0x2100 - 5 * i); break;                   // downwards
        case 2: c = char32_t(0x61 + 0x20 * i); one = false; break;     // ranges
        case 3: c = char32_t((i * 0x9E37 + 0x4B) % 0x11000); one = i % 3; break;
        default: c = char32_t(0x10000 - 0x40 * i); one = false; break; // ranges, downwards
        }
        if (one)
            set.add_codepoint(c);
        else
            set.add_range(c, c + 9);
        added.add(c, one ? c : c + 9, one);
    }
}

extern "C" void ys_main()
{
    unsigned mode = (unsigned)ys_param("mode", 0);
    if (mode == 3)
    {
        // Sequences of code points instead of sets.
        char32_t cs[8], c = ys_u32("x"), u = to_upper(c);
        size_t n = ys_param("chars", 2);
        bool same = false, folded = false;
        for (size_t i = 0; i < n; ++i)
        {
            cs[i] = ys_u32("c");
            same |= cs[i] == c;
            folded |= to_upper(cs[i]) == u;
        }
        std::u32string_view v(cs, n);
        ys_check(contains(v, c) == same, "contains of a sequence");
        ys_check(case_insensitive_contains(v, c) == folded, "case-insensitive contains of a sequence");
        ys_reach("sequence");
        return;
    }
    CodepointSet set;
    Added added;
    size_t ops = ys_param("ops", 2);
    uint64_t shape = 1;
    add_fixed(set, added, ys_param("fill", 0));
    for (size_t i = 0; i < ops; ++i)
    {
        const char* names[] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9"};
        size_t kind = mode == 2 ? 1 : ys_param(names[i], 3);
        if (kind == 3)
            kind = choose("op", 2);
        shape = shape * 3 + kind;
        if (kind == 0)
        {
            char32_t f = any_codepoint("first"), l = any_codepoint("last");
            ys_assume(f <= l);
            set.add_range(f, l);
            added.add(f, l, false);
        }
        else if (kind == 1)
        {
            char32_t c = any_codepoint("c");
            set.add_codepoint(c);
            added.add(c, c, true);
        }
        else
        {
            char32_t c[3];
            size_t k = ys_param("chars", 2);
            for (size_t j = 0; j < k; ++j)
            {
                c[j] = any_codepoint("cs");
                added.add(c[j], c[j], true);
            }
            set.add_codepoints(std::u32string_view(c, k));
        }
    }
    add_fixed(set, added, ys_param("tail", 0));
    ys_part(shape);
    bool neg = set.negated = ys_u1("negated");
    if (mode == 0)
    {
        char32_t c = ys_u32("x");
        bool got = set.contains(c);
        ys_check(got == (added.contains(c) != neg), "contains");
        ys_observe(got);
        ys_reach(got ? "contained" : "not contained");
        return;
    }
    // 21 bits are what the decoder can return.
    char32_t c = ys_u32("x");
    ys_assume(c <= 0x1FFFFF);
    bool got = set.case_insensitive_contains(c) != neg;
    if (!added.n)
    {
        ys_check(!got, "nothing added");
        ys_reach("nothing added");
        return;
    }
    char32_t u = to_upper(c);
    bool must = added.contains(c), others = false;
    for (size_t i = 0; i < added.n; ++i)
    {
        if (added.single[i])
            must |= to_upper(added.first[i]) == u;
        else
            others = true;
    }
    ys_check(got | !must, "case-insensitive match");
    if (!others)
        ys_check(!got | must, "no case-insensitive match");
    ys_observe(got);
    ys_reach(!got ? "no case-insensitive match" : others ? "case-insensitive match" : "exact case-insensitive match");
}
