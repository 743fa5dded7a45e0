// C23: escaping for JSON.
#include "common.hpp"
#include "Ystring/Escape.hpp"
#include "Ystring/Unescape.hpp"

using namespace ystring;

INL bool escapable(char c) { return (unsigned char)c < 0x20 || c == '"' || c == '\\'; }

INL int hex(char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}

// The byte that the JSON escape at t[i] stands for, -1 if it is none; i is
// moved past it.
static int json_escape(std::string_view t, size_t& i)
{
    if (i + 2 > t.size() || t[i] != '\\')
        return -1;
    char c = t[i + 1];
    i += 2;
    switch (c)
    {
    case '"':
    case '\\':
    case '/':
        return (unsigned char)c;
    case 'b': return 8;
    case 'f': return 12;
    case 'n': return 10;
    case 'r': return 13;
    case 't': return 9;
    case 'u':
    {
        if (i + 4 > t.size())
            return -1;
        int v = 0;
        for (size_t k = 0; k < 4; ++k)
        {
            int d = hex(t[i + k]);
            if (d < 0)
                return -1;
            v = v * 16 + d;
        }
        i += 4;
        return v < 0x80 ? v : -1;
    }
    default:
        return -1;
    }
}

extern "C" void ys_main()
{
    unsigned mode = (unsigned)ys_param("mode", 0);
    Text b;
    auto s = b.view();
    part_by_bytes(b.any());
    if (mode == 0)
    {
        auto t = escape_json(s);
        size_t i = 0;
        bool any = false;
        for (char c : s)
        {
            if (escapable(c))
            {
                any = true;
                ys_check(json_escape(t, i) == (unsigned char)c, "escape");
            }
            else
            {
                ys_check(i < t.size() && t[i] == c, "unchanged byte");
                ++i;
            }
        }
        ys_check(i == t.size(), "nothing else");
        ys_check(has_escapable_chars(s) == any, "has_escapable_chars");
        observe(t);
        ys_check(same_bytes(unescape(t), s), "unescape undoes it");
        ys_reach(any ? "escaped" : "nothing to escape");
    }
    else
    {
        size_t from = place("at", s.size()), want = from;
        while (want < s.size() && !escapable(s[want]))
            ++want;
        auto r = from == 0 && ys_u1("default") ? find_first_escapable_char(s) : find_first_escapable_char(s, from);
        if (want == s.size())
            ys_check(r.length == 0, "nothing found");
        else
            ys_check(r.offset == want && r.length == 1, "found");
        ys_reach(want == s.size() ? "nothing found" : "found");
    }
}
