// C24: unescaping.
#include "escapes.hpp"
#include "Ystring/Unescape.hpp"

using namespace ystring;

struct Escape
{
    bool found = false, valid = true;
    bool either = false; // a value beyond 32 bits: malformed, or above U+10FFFF
    size_t start = 0, end = 0;
    uint64_t value = 0;
    bool utf16 = false;
};

// The first escape at or after from.
static Escape ref_find(std::string_view s, size_t from)
{
    Escape e;
    size_t i = from;
    while (i < s.size() && s[i] != '\\')
        ++i;
    e.start = e.end = i;
    if (i == s.size())
        return e;
    e.found = true;
    if (++i == s.size())
    {
        e.valid = false;
        return e;
    }
    char c = s[i++];
    if (c == 'x' || c == 'X')
    {
        e.valid = ref_digits(s, i, SIZE_MAX, 16, e.value) >= 2;
        e.either = e.value > UINT32_MAX;
    }
    else if (c == 'u' || c == 'U')
    {
        size_t n = c == 'u' ? 4 : 8;
        e.valid = ref_digits(s, i, n, 16, e.value) == n;
        e.utf16 = c == 'u';
    }
    else if (ref_digit(c) < 8)
        ref_digits(s, --i, 3, 8, e.value);
    else if (ref_letter(c) >= 0)
        e.value = ref_letter(c);
    else
    {
        e.value = (unsigned char)c;
        e.valid = e.value < 0x80;
    }
    e.end = i;
    return e;
}

extern "C" void ys_main()
{
    EscapeText text;
    auto s = text.s;
    if (ys_param("mode", 0) == 1)
    {
        size_t from = place("at", s.size());
        auto e = ref_find(s, from);
        Subrange r;
        bool t = throws([&] { r = from == 0 && ys_u1("default") ? find_first_escaped_char(s) : find_first_escaped_char(s, from); });
        ys_check(t == !e.valid, "find: throws when malformed");
        if (!t && e.found)
            ys_check(r.offset == e.start && r.length == e.end - e.start, "find: escape");
        else if (!t)
            ys_check(r.length == 0, "find: nothing");
        if (from == 0 && e.valid)
            ys_check(has_escaped_chars(s) == e.found, "has_escaped_chars");
        ys_reach(!e.valid ? "first malformed" : e.found ? "first" : "none");
        return;
    }
    Out<TEXT_BYTES> want;
    bool valid = true, either = false;
    for (size_t i = 0; i < s.size();)
    {
        auto e = ref_find(s, i);
        want.text(s.substr(i, e.start - i));
        if (!e.found)
            break;
        either |= e.either;
        if (!e.valid)
        {
            valid = false;
            break;
        }
        if (e.utf16 && (e.value & ~0x3FFull) == 0xD800)
        {
            // With the second of a surrogate pair?
            auto f = ref_find(s, e.end);
            if (f.found && f.valid && f.start == e.end && f.utf16 && (f.value & ~0x3FFull) == 0xDC00)
            {
                e.value = 0x10000 + ((e.value & 0x3FF) << 10 | (f.value & 0x3FF));
                e.end = f.end;
                ys_reach("surrogate pair");
            }
        }
        if (e.value <= UNICODE_LAST)
            want.cp(char32_t(e.value));
        else
            ys_reach("no code point");
        i = e.end;
    }
    // In place first, in a block of exactly the size.
    Buf b(s.size());
    memcpy(b.p, s.data(), s.size());
    size_t n = 0;
    bool t = throws([&] { n = unescape(b.p, b.n); });
    std::string u;
    bool t2 = throws([&] { u = unescape(std::string(s)); });
    ys_check(t == t2, "both throw or neither");
    ys_check(valid ? !t || either : t, "throws when malformed");
    if (t || t2)
    {
        ys_reach("malformed");
        return;
    }
    ys_check(n <= b.n, "not longer");
    ys_check(same_bytes({b.p, n}, want.view()), "in place");
    ys_check(same_bytes(u, want.view()), "unescape");
    observe(u);
    ys_reach(n == s.size() ? "nothing to unescape" : "unescaped");
}
