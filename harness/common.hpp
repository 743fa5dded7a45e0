// Support for the harnesses: exactly sized buffers and reference definitions
// of UTF-8 that are independent of the library's.
#pragma once
#include "ys.h"
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "Ystring/YstringDefinitions.hpp"
#include "Ystring/YstringException.hpp"

#define INL inline __attribute__((always_inline))

// With the parameter "again" everything is done twice, the first time as a
// rehearsal that must make no difference: with other text in the same places
// and of the same size (1: ASCII letters, 2: other letters), or with the same
// text but other numbers (3).
struct Rehearsed {};
struct Rehearsal
{
    bool on = false;
    unsigned mode = 0;
    size_t blocks = 0, syms = 0;
    struct { void* p; size_t n; } block[8] = {}, sym[8] = {};
};
static Rehearsal rehearsal;

extern "C" void ys_body();

extern "C" void ys_main()
{
    rehearsal = Rehearsal();
    rehearsal.mode = (unsigned)ys_param("again", 0);
    if (rehearsal.mode)
    {
        rehearsal.on = true;
        try
        {
            ys_body();
            ys_reach("again");
        }
        catch (Rehearsed&)
        {
        }
        rehearsal.on = false;
        rehearsal.blocks = rehearsal.syms = 0;
    }
    ys_body();
}

inline void* take_block(size_t n)
{
    auto& r = rehearsal;
    if (!r.mode || r.blocks == 8)
        return malloc(n);
    auto& b = r.block[r.blocks++];
    if (!r.on && b.p && b.n == n)
        return b.p;
    void* p = malloc(n);
    if (r.on)
        b.p = p, b.n = n;
    return p;
}

inline void give_block(void* p)
{
    if (!rehearsal.on)
        free(p);
}

inline void make_any(void* p, size_t n, const char* name)
{
    auto& r = rehearsal;
    if (!r.mode)
    {
        ys_sym(p, n, name);
    }
    else if (r.mode != 3)
    {
        if (!r.on)
            ys_sym(p, n, name);
        else if (r.mode == 1)
            memset(p, 'a', n);
        else
            for (size_t i = 0; i < n; ++i)
                static_cast<char*>(p)[i] = i == n - 1 && i % 2 == 0 ? 'B' : i % 2 ? '\xA9' : '\xC3';
    }
    else if (r.on || r.syms >= 8 || r.sym[r.syms].n != n)
    {
        ys_sym(p, n, name);
        if (r.on && r.syms < 8)
        {
            auto& b = r.sym[r.syms++];
            b.p = malloc(n);
            b.n = n;
            memcpy(b.p, p, n);
        }
    }
    else
    {
        memcpy(p, r.sym[r.syms++].p, n);
    }
}

inline void assume(bool c)
{
    if (!rehearsal.on)
        ys_assume(c);
    else if (!c)
        throw Rehearsed();
}

// From here on, what the harnesses use.
#define ys_main ys_body
#define ys_sym(p, n, name) make_any(p, n, name)
#define ys_u64(name) (rehearsal.on ? uint64_t(1) : ys_u64(name))
#define ys_u32(name) (rehearsal.on ? uint32_t(0x101) : ys_u32(name))
#define ys_u8(name) (rehearsal.on ? uint8_t(1) : ys_u8(name))
#define ys_u1(name) (rehearsal.on ? false : ys_u1(name))
#define ys_assume(c) assume(c)
#define ys_part(v) (rehearsal.on ? void() : ys_part(v))
#define ys_reach(label) (rehearsal.on ? void() : ys_reach(label))
#define ys_observe(v) (rehearsal.on ? void(v) : ys_observe(v))

// A heap block of exactly n bytes, so that any access outside it is seen.
struct Buf
{
    char* p;
    size_t n;
    explicit Buf(size_t size) : p(static_cast<char*>(take_block(size))), n(size) {}
    Buf(const Buf&) = delete;
    ~Buf() { give_block(p); }
    std::string_view view() const { return {p, n}; }
};

struct SymBuf : Buf
{
    SymBuf(size_t size, const char* name) : Buf(size) { ys_sym(p, size, name); }
};

INL bool ref_cont(unsigned char b) { return (b & 0xC0) == 0x80; }

// The number of bytes of the code point at s[i], 0 if it is malformed.
INL unsigned ref_decode(const char* s, size_t i, size_t n, char32_t& c)
{
    auto b = [&](size_t k) { return (unsigned char)s[i + k]; };
    unsigned char b0 = b(0);
    if (b0 < 0x80)
    {
        c = b0;
        return 1;
    }
    if (b0 < 0xC0)
        return 0;
    unsigned len = b0 < 0xE0 ? 2 : b0 < 0xF0 ? 3 : b0 < 0xF8 ? 4 : 0;
    if (len == 0 || n - i < len)
        return 0;
    char32_t v = b0 & (0xFFu >> (len + 1));
    for (unsigned k = 1; k < len; ++k)
    {
        if (!ref_cont(b(k)))
            return 0;
        v = v << 6 | (b(k) & 0x3F);
    }
    c = v;
    return len;
}

// The code points of a string; start[n] is its size.
template <size_t N>
struct Ref
{
    size_t n = 0;
    bool valid = true;    // can be decoded
    bool shortest = true; // has no code point in more bytes than it needs
    size_t start[N + 1];
    char32_t cp[N + 1];

    INL explicit Ref(std::string_view s)
    {
        size_t i = 0;
        start[0] = 0;
        while (i < s.size())
        {
            char32_t c = 0;
            unsigned len = ref_decode(s.data(), i, s.size(), c);
            if (!len)
            {
                valid = false;
                return;
            }
            if (len > 1)
                shortest = shortest & (c >= (len == 2 ? 0x80u : len == 3 ? 0x800u : 0x10000u));
            cp[n] = c;
            i += len;
            ++n;
            start[n] = i;
        }
    }

    // Is it text that a property can speak of?
    INL bool text() const { return valid & shortest; }
};

// Standard encoding. Returns the number of bytes, 0 above U+10FFFF.
INL unsigned ref_encode(char32_t c, char* out)
{
    if (c < 0x80)
    {
        out[0] = char(c);
        return 1;
    }
    if (c < 0x800)
    {
        out[0] = char(0xC0 + (c >> 6));
        out[1] = char(0x80 + (c & 63));
        return 2;
    }
    if (c < 0x10000)
    {
        out[0] = char(0xE0 + (c >> 12));
        out[1] = char(0x80 + ((c >> 6) & 63));
        out[2] = char(0x80 + (c & 63));
        return 3;
    }
    if (c <= 0x10FFFF)
    {
        out[0] = char(0xF0 + (c >> 18));
        out[1] = char(0x80 + ((c >> 12) & 63));
        out[2] = char(0x80 + ((c >> 6) & 63));
        out[3] = char(0x80 + (c & 63));
        return 4;
    }
    return 0;
}

// Output of a reference: a fixed buffer.
template <size_t N>
struct Out
{
    size_t n = 0;
    char p[N];
    INL void byte(char c) { p[n++] = c; }
    INL void bytes(const char* s, size_t k)
    {
        for (size_t i = 0; i < k; ++i)
            p[n++] = s[i];
    }
    INL void text(std::string_view s) { bytes(s.data(), s.size()); }
    INL void cp(char32_t c) { n += ref_encode(c, p + n); }
    std::string_view view() const { return {p, n}; }
};

// The most code points and bytes in the texts of the harnesses.
#ifdef YS_BIG
constexpr size_t TEXT = 140000, TEXT_BYTES = 320000;
#else
constexpr size_t TEXT = 1200, TEXT_BYTES = 4800;
#endif

// The i-th fixed code point (or escape, or malformed sequence) of a style.
INL std::string_view fixed_unit(size_t style, size_t i)
{
    static const char* const units[][6] = {
        {},
        {"\xC3\xA9", "x", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "Z", nullptr},               // all lengths
        {"\xCC\x81", nullptr},                                                              // marks
        {"a", nullptr},                                                                     // the same
        {"a", ",", nullptr},                                                                // separators
        {"\r", "\n", "x", "\xE2\x80\xA8", "\r", "y"},                                       // newlines
        {"\xC3\x9F", "\xC5\xBF", "\xC4\xB1", "\xE2\x84\xAA", "K", "s"},                       // case
        {"\\n", "\\u00e6", "x", "\\101", "\\U0001F600", nullptr},                            // escapes
        {"\"", "\\", "\x01", "a", "\n", "/"},                                                // JSON
        {"\xC3\xA9", "e", "\xCC\x81", "\xF0\x91\x82\x9A", "\xE1\xBA\xA4", "\xE2\x84\xAB"},   // decompositions
        {"\xC3", "a", "\x80", "\xFF", "\xF0\x9F\x98", "\xE2\x82\xAC"},                         // malformed
        {" ", "\t", nullptr},                                                               // spaces
        {"a", "B", " ", "\xC3\x9F", "\xC3\x89", "1"},                                       // words
        {"a", "b", "c", nullptr},                                                           // a short cycle
        {},
        {"\\\n", nullptr},                                                                   // newlines to skip
        {"\xC3\x9F", "s", "\xC4\xB1", "k", "k", "S"},                                        // case like 6
        {"A", "\xCC\x82", nullptr},                                                         // composable
        {"\x80", nullptr},                                                                  // continuation
    };
    static const char letters[] = "abcdefghijklmnopqrstuvwxyz";
    static const char capitals[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    if (style == 0 || style == 14)
        return {(style ? capitals : letters) + i % 26, 1};
    if (style == 2 && i == 0)
        return "a";
    size_t k = 0;
    while (k < 6 && units[style][k])
        ++k;
    return units[style][i % k];
}

// "fill" fixed code points, "len" arbitrary bytes and "tail" fixed code points
// in a block of exactly that size.
struct Text
{
    char* p;
    size_t n;
    size_t at; // where the arbitrary bytes are
    size_t len;

    INL explicit Text(const char* name = "s", const char* fill = "fill", const char* length = "len",
                      const char* tail = "tail", const char* style = "style")
    {
        Out<TEXT_BYTES> o;
        size_t st = ys_param(style, 0);
        size_t before = ys_param(fill, 0), after = ys_param(tail, 0);
        for (size_t i = 0; i < before; ++i)
            o.text(fixed_unit(st, i));
        at = o.n;
        len = ys_param(length, 3);
        o.n += len;
        for (size_t i = 0; i < after; ++i)
            o.text(fixed_unit(st, i));
        n = o.n;
        p = static_cast<char*>(take_block(n));
        memcpy(p, o.p, at);
        ys_sym(p + at, len, name);
        memcpy(p + at + len, o.p + at + len, n - at - len);
    }
    Text(const Text&) = delete;
    ~Text() { give_block(p); }
    std::string_view view() const { return {p, n}; }
    std::string_view any() const { return {p + at, len}; }
};

// Another text, with parameters of its own.
struct Text2 : Text
{
    explicit Text2(const char* name) : Text(name, "fill2", "len2", "tail2", "style2") {}
};

// Equality as one condition, so that it is a single question to the solver.
INL bool same_bytes(std::string_view a, std::string_view b)
{
    if (a.size() != b.size())
        return false;
    unsigned d = 0;
    for (size_t i = 0; i < a.size(); ++i)
        d |= (unsigned char)(a[i] ^ b[i]);
    return d == 0;
}

INL void observe(std::string_view s)
{
    ys_observe(s.size());
    for (char c : s)
        ys_observe((unsigned char)c);
}

// Is v inside s (or an empty view without a position)?
INL bool inside(std::string_view v, std::string_view s)
{
    if (v.empty() && !v.data())
        return true;
    return (uintptr_t)v.data() >= (uintptr_t)s.data()
           && (uintptr_t)(v.data() + v.size()) <= (uintptr_t)(s.data() + s.size());
}

// Divides the work by the shape of a string: the lengths of its code points.
template <typename R>
INL void part_by_shape(const R& r)
{
    uint64_t sh = r.n;
    for (size_t k = 0; k < r.n; ++k)
        sh = sh * 5 + (r.start[k + 1] - r.start[k]);
    ys_part(sh);
}

// Divides the work by the kinds of bytes in an arbitrary string.
INL void part_by_bytes(std::string_view s)
{
    uint64_t sh = s.size();
    for (size_t i = 0; i < s.size() && i < 4; ++i)
    {
        unsigned char b = (unsigned char)s[i];
        unsigned k = b < 0x80 ? 0 : b < 0xC0 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : 5;
        sh = sh * 7 + k;
    }
    ys_part(sh);
}

// Runs f; true if it throws YstringException. Other exceptions escape, which
// is an error.
template <typename F>
INL bool throws(F f)
{
    try
    {
        f();
    }
    catch (ystring::YstringException&)
    {
        return true;
    }
    return false;
}

#define UNICODE_LAST 0x10FFFFu

// The position a signed index stands for: negative ones count from the end,
// those beyond either end are capped to it.
INL size_t ref_cap(ptrdiff_t i, size_t n)
{
    auto m = (ptrdiff_t)n;
    if (i >= 0)
    {
        for (ptrdiff_t k = 0; k < m; ++k)
            if (i == k)
                return size_t(k);
        return n;
    }
    for (ptrdiff_t k = 1; k < m; ++k)
        if (i == -k)
            return size_t(m - k);
    return 0;
}

// A symbolic choice among 0..n.
INL size_t choose(const char* name, size_t n)
{
    if (rehearsal.on)
        return n ? 1 : 0;
    uint8_t v = ys_u8(name);
    ys_assume(v <= n);
    return size_t(ys_concrete(v));
}

// Any position in 0..n; with "few" one of some near the ends, the middle and
// the arbitrary part of a text. Larger values of "few" mean fewer.
INL size_t place(const char* name, size_t n)
{
    if (!ys_param("few", 0))
        return choose(name, n);
    size_t f = ys_param("fill", 0), some[] = {0, f, f + 1, n - 1, n, 1, 2, f - 1, f + 2, n / 2, n - 2};
    size_t k = some[choose(name, ys_param("few", 0) == 1 ? 10 : 4)];
    return k <= n ? k : n;
}

// Any limit; with "few" one of some small and extreme ones.
INL uint64_t limit(const char* name)
{
    if (!ys_param("few", 0))
        return ys_u64(name);
    const int64_t some[] = {1, -1, 65536, -65536, INT64_MAX, INT64_MIN, INT64_MIN + 1, 0, 2, 3, -2, -3, 16, 254, 255, 256, 257, -255, -256};
    return uint64_t(some[choose(name, ys_param("few", 0) == 1 ? 18 : ys_param("few", 0) == 2 ? 5 : 2)]);
}

// Any index; with "few" any of some near the ends and the middle of n.
INL ptrdiff_t pick(const char* name, size_t n)
{
    if (!ys_param("few", 0))
        return (ptrdiff_t)ys_u64(name);
    auto m = (ptrdiff_t)n;
    ptrdiff_t some[] = {1, m - 1, -1, 1 - m, 0, m / 2, m, -m / 2, -m, m + 1, -m - 1, PTRDIFF_MAX, PTRDIFF_MIN};
    return some[choose(name, ys_param("few", 0) == 1 ? 12 : 3)];
}

// The position in [-n, n] a signed index stands for, -1 for others.
INL ptrdiff_t ref_index(ptrdiff_t i, size_t n)
{
    auto m = (ptrdiff_t)n;
    for (ptrdiff_t k = 0; k <= m; ++k)
    {
        if (i == k)
            return k;
        if (k && i == -k)
            return m - k;
    }
    return -1;
}

// Is the sub-view v exactly the bytes [from, to) of s, in place?
INL bool is_slice(std::string_view v, std::string_view s, size_t from, size_t to)
{
    if (from == to)
        return v.empty() && inside(v, s);
    return v.data() == s.data() + from && v.size() == to - from;
}
