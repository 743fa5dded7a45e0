// C25: stepping through text with escapes.
#include "escapes.hpp"
#include "Ystring/Unescape.hpp"

using namespace ystring;

struct Next
{
    bool any = true, valid = true, escaped = false;
    bool either = false; // half a surrogate pair before an incomplete \u
    size_t start = 0, end = 0;
    char32_t value = 0;
};

static Next ref_next(std::string_view s)
{
    Next r;
    size_t i = 0;
    while (i + 2 <= s.size() && s[i] == '\\' && s[i + 1] == '\n')
        i += 2;
    r.start = r.end = i;
    if (i == s.size())
    {
        r.any = false;
        return r;
    }
    r.escaped = s[i] == '\\';
    if (!r.escaped)
    {
        unsigned len = ref_decode(s.data(), i, s.size(), r.value);
        r.valid = len != 0;
        r.end = i + len;
        return r;
    }
    if (++i == s.size())
    {
        r.valid = false;
        return r;
    }
    char c = s[i];
    uint64_t v = 0;
    if (ref_letter(c) >= 0)
    {
        r.value = char32_t(ref_letter(c));
        r.end = i + 1;
    }
    else if (c == 'x' || c == 'X' || c == 'U' || c == 'u')
    {
        ++i;
        size_t most = c == 'u' ? 4 : 8, least = c == 'x' || c == 'X' ? 1 : most;
        r.valid = ref_digits(s, i, most, 16, v) >= least;
        r.end = i;
        if (c == 'u' && r.valid && (v & ~0x3FFull) == 0xD800 && s.size() - i >= 2 && s[i] == '\\' && s[i + 1] == 'u')
        {
            uint64_t w = 0;
            i += 2;
            if (ref_digits(s, i, 4, 16, w) < 4)
                r.either = true;
            else if ((w & ~0x3FFull) == 0xDC00)
            {
                v = 0x10000 + ((v & 0x3FF) << 10 | (w & 0x3FF));
                r.end = i;
                ys_reach("surrogate pair");
            }
        }
        r.value = char32_t(v);
    }
    else if (ref_digit(c) < 8)
    {
        ref_digits(s, i, 3, 8, v);
        r.value = char32_t(v);
        r.end = i;
    }
    else
    {
        unsigned len = ref_decode(s.data(), i, s.size(), r.value);
        r.valid = len != 0;
        r.end = i + len;
    }
    return r;
}

extern "C" void ys_main()
{
    EscapeText text;
    auto s = text.s;
    auto want = ref_next(s);
    std::string_view v = s;
    std::optional<char32_t> got;
    bool flag = ys_u1("flag"), did = ys_u1("did");
    bool t = throws([&] { got = unescape_next(v, flag ? &did : nullptr); });
    if (!want.any)
    {
        ys_check(!t && !got, "nothing left");
        ys_check(v.empty(), "nothing left: view");
        ys_check(!flag || !did, "nothing left: did_unescape");
        ys_reach("nothing left");
        return;
    }
    if (want.either && t)
    {
        ys_check(is_slice(v, s, want.start, s.size()), "view after throwing");
        return;
    }
    ys_check(t == !want.valid, "throws when malformed");
    if (t)
    {
        ys_check(is_slice(v, s, want.start, s.size()), "view after throwing");
        ys_reach("malformed");
        return;
    }
    ys_check(got.has_value(), "a character");
    ys_check(*got == want.value, "value");
    ys_check(is_slice(v, s, want.end, s.size()), "view");
    ys_check(!flag || did == want.escaped, "did_unescape");
    ys_observe(*got);
    ys_reach(want.escaped ? "escape" : "character");
    if (want.start)
        ys_reach("skipped newline");
}
