// Look-ups in the tables made from the repository's UnicodeData file.
#pragma once
#include "common.hpp"
#include "ucd.hpp"

// The value of the run that c belongs to.
template <size_t N>
INL uint32_t ucd_lookup(const UcdRun (&t)[N], char32_t c, uint32_t dflt)
{
    size_t lo = 0, hi = N;
    while (lo < hi)
    {
        size_t mid = (lo + hi) / 2;
        if (t[mid].last < c)
            lo = mid + 1;
        else
            hi = mid;
    }
    if (lo == N || c < t[lo].first || (c - t[lo].first) % t[lo].stride != 0)
        return dflt;
    return t[lo].value;
}

// The two parts of c's decomposition, or null.
INL const UcdPair* ucd_parts(char32_t c)
{
    size_t n = sizeof(UCD_DECOMPOSE) / sizeof(UcdPair), lo = 0, hi = n;
    while (lo < hi)
    {
        size_t mid = (lo + hi) / 2;
        if (UCD_DECOMPOSE[mid].c < c)
            lo = mid + 1;
        else
            hi = mid;
    }
    return lo < n && UCD_DECOMPOSE[lo].c == c ? &UCD_DECOMPOSE[lo] : nullptr;
}

// The code point that is composed of a and b, or 0.
INL char32_t ucd_composed(char32_t a, char32_t b)
{
    size_t n = sizeof(UCD_COMPOSE) / sizeof(UcdPair), lo = 0, hi = n;
    while (lo < hi)
    {
        size_t mid = (lo + hi) / 2;
        if (UCD_COMPOSE[mid].a < a || (UCD_COMPOSE[mid].a == a && UCD_COMPOSE[mid].b < b))
            lo = mid + 1;
        else
            hi = mid;
    }
    return lo < n && UCD_COMPOSE[lo].a == a && UCD_COMPOSE[lo].b == b ? UCD_COMPOSE[lo].c : 0;
}

// An arbitrary value in [lo * 64, hi * 64), or from there when hi is 0.
INL char32_t ranged_char(const char* name)
{
    char32_t c = ys_u32(name), lo = char32_t(ys_param("lo", 0)), hi = char32_t(ys_param("hi", 0));
    ys_assume(c >= lo * 64);
    if (hi)
        ys_assume(c < hi * 64);
    return c;
}

// A value near c for an earlier call, which must make no difference.
INL char32_t earlier(char32_t c)
{
    switch (ys_param("earlier", 0))
    {
    case 1: return c - 1;
    case 2: return c + 1;
    case 3: return c ^ 0x20;
    case 4: return c + 0x10000;
    case 5: return c & 0xFF;
    default: return c + 2;
    }
}

// The text of string checks: "fill" fixed code points, then either "len"
// arbitrary bytes that decode to Unicode code points or the encodings of
// "chars" code points: each from [lo * 64, hi * 64), or with marks=1 also from
// U+0300-U+037F; then "tail" fixed code points.
struct UcdText
{
    char* p = nullptr;
    std::string_view s;
    Ref<TEXT> r;

    INL UcdText() : s(make()), r(s)
    {
        ys_assume(r.text());
        for (size_t i = 0; i < r.n; ++i)
            ys_assume(r.cp[i] <= UNICODE_LAST);
        part_by_shape(r);
    }
    UcdText(const UcdText&) = delete;
    ~UcdText() { give_block(p); }

    INL std::string_view make()
    {
        Out<TEXT_BYTES> buf;
        size_t style = ys_param("style", 0), n = 0;
        for (size_t i = 0, k = ys_param("fill", 0); i < k; ++i)
            buf.text(fixed_unit(style, i));
        if (size_t k = ys_param("chars", 0))
        {
            for (size_t i = 0; i < k; ++i)
            {
                if (ys_param("marks", 0) && ys_u1("mark"))
                {
                    char32_t c = ys_u32("m");
                    ys_assume((c & ~0x7Fu) == 0x300);
                    buf.cp(c);
                }
                else
                    buf.cp(ranged_char("c"));
            }
        }
        else
        {
            n = ys_param("len", 3);
            ys_sym(buf.p + buf.n, n, "s");
            buf.n += n;
        }
        for (size_t i = 0, k = ys_param("tail", 0); i < k; ++i)
            buf.text(fixed_unit(style, i));
        // Exactly sized, so that any access outside it is seen.
        p = static_cast<char*>(take_block(buf.n));
        memcpy(p, buf.p, buf.n);
        return {p, buf.n};
    }
};
