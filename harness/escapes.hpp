// What escape sequences mean, and texts with escapes in them.
#pragma once
#include "common.hpp"

// The value of a digit, 99 for others; without branches.
INL unsigned ref_digit(char c)
{
    unsigned num = (unsigned char)c - '0', al = ((unsigned char)c | 0x20u) - 'a';
    unsigned isNum = num < 10, isAl = al < 6;
    return isNum * num + isAl * (al + 10) + (1 - isNum) * (1 - isAl) * 99;
}

// The digits from s[i], at most max of them; i is moved past them.
INL size_t ref_digits(std::string_view s, size_t& i, size_t max, int base, uint64_t& value)
{
    size_t n = 0;
    value = 0;
    while (n < max && i < s.size())
    {
        unsigned d = ref_digit(s[i]);
        if (d >= (unsigned)base)
            break;
        value = value < (1ull << 40) ? value * base + d : value;
        ++i;
        ++n;
    }
    return n;
}

INL int ref_letter(char c)
{
    switch (c)
    {
    case 'a': return 7;
    case 'b': return 8;
    case 'f': return 12;
    case 'n': return 10;
    case 'r': return 13;
    case 't': return 9;
    case 'v': return 11;
    default: return -1;
    }
}

// The text of the checks of unescaping: "len" arbitrary bytes, "kind" of them
// preceded by the start of an escape; or two \u escapes of arbitrary digits.
struct EscapeText
{
    Out<TEXT_BYTES> out;
    char* p;
    std::string_view s;

    INL void any(size_t n)
    {
        ys_sym(out.p + out.n, n, "s");
        out.n += n;
    }

    INL EscapeText()
    {
        size_t n = ys_param("len", 3);
        size_t style = ys_param("style", 0);
        for (size_t i = 0, k = ys_param("fill", 0); i < k; ++i)
            out.text(fixed_unit(style, i));
        switch (ys_param("kind", 0))
        {
        case 1: out.text("\\x"); break;
        case 2: out.text("\\u"); break;
        case 3: out.text("\\U"); break;
        case 4:
        {
            // A surrogate pair, or nearly.
            out.text("\\u");
            any(4);
            out.text("\\u");
            any(4);
            break;
        }
        case 5: out.text("\\u00e6\\X"); break;
        case 6: out.text("\\uD83d\\"); break;
        case 7: out.text("\\"); break;
        case 8: out.text("\\\n"); break;
        case 9: out.text("\\x1fAb0"); break;
        case 10: out.text("\\X00000"); break;
        case 11: out.text("\\a\\U0010"); break;
        case 12: out.text("\\uD83dabc"); break;
        case 13: out.text("\\uD83d\\U"); break;
        case 14: out.text("\\uDBff\\u"); break;
        default: break;
        }
        any(n);
        size_t end = out.n;
        for (size_t i = 0, k = ys_param("tail", 0); i < k; ++i)
            out.text(fixed_unit(style, i));
        p = static_cast<char*>(take_block(out.n));
        memcpy(p, out.p, out.n);
        s = {p, out.n};
        part_by_bytes(s.substr(end - n, n));
    }
    ~EscapeText() { give_block(p); }
};
