// C30: what is made of valid UTF-8 is valid UTF-8.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/ConvertCase.hpp"
#include "Ystring/Escape.hpp"
#include "Ystring/Normalize.hpp"
#include "Ystring/Unescape.hpp"
#include "Ystring/Utf32.hpp"

using namespace ystring;
namespace ci = ystring::case_insensitive;

INL bool well_formed(std::string_view s)
{
    Ref<TEXT> r(s);
    if (!r.valid)
        return false;
    bool ok = r.shortest;
    for (size_t i = 0; i < r.n; ++i)
        ok &= r.cp[i] <= UNICODE_LAST;
    return ok;
}

static void valid(std::string_view s)
{
    ys_check(well_formed(s), "valid");
    ys_observe(s.size());
}

static void valid(const std::vector<std::string_view>& v)
{
    for (auto s : v)
        valid(s);
}

static void valid(std::string_view s, const Subrange& r)
{
    if (r.length != 0)
        valid(s.substr(0, r.offset)), valid(s.substr(r.offset, r.length)), valid(s.substr(r.offset + r.length));
}

extern "C" void ys_main()
{
    Text b;
    auto s = b.view();
    ys_assume(well_formed(s));
    part_by_bytes(b.any());
    Text2 b2("t");
    auto t = b2.view();
    ys_assume(well_formed(t));
    char32_t cs[2] = {ys_u32("c0"), ys_u32("c1")};
    std::u32string_view c2(cs, 2);
    auto i = pick("i", s.size()), j = pick("j", s.size());
    auto params = [&]
    {
        SplitParams p;
        p.max_splits = size_t(j);
        p.ignore_empty = ys_u1("ignore");
        return p;
    };
    bool t1 = throws([&]
    {
        switch (ys_param("fn", 0))
        {
        case 0: { std::string x(s); append(x, cs[0]); valid(x); break; }
        case 1: valid(append(s, cs[0])); break;
        case 2: valid(from_utf32(c2)); valid(from_utf32(cs[0])); break;
        case 3: valid(from_utf32(to_utf32(s))); break;
        case 4: valid(s, find_first(s, t)); break;
        case 5: valid(s, find_last(s, t)); break;
        case 6: valid(s, find_first_of(s, c2).first); break;
        case 7: valid(s, find_last_of(s, c2).first); break;
        case 8: valid(s, find_first_newline(s)); break;
        case 9: valid(s, find_last_newline(s)); break;
        case 10: valid(s, get_char_range(s, i)); break;
        case 11: valid(s, get_codepoint(s, i).first); break;
        case 12: valid(get_char_substring(s, i, j)); break;
        case 13: valid(get_codepoint_substring(s, i, j)); break;
        case 14: valid(insert_chars(s, i, t)); break;
        case 15: valid(insert_char(s, i, cs[0])); break;
        case 16: valid(insert_codepoint(s, i, cs[0])); break;
        case 17: valid(insert_codepoints(s, i, t)); break;
        case 18: { std::string_view v[] = {s, t, s}; valid(join(v, v + 3, t)); break; }
        case 19: valid(replace(s, t, "\xC3\xA6", i)); break;
        case 20: valid(replace(s, "\xC3\xA6", t, i)); break;
        case 21: valid(replace_chars(s, i, j, t)); break;
        case 22: valid(replace_codepoints(s, i, j, t)); break;
        case 23: valid(replace_codepoint(s, cs[0], cs[1], i)); break;
        case 24: valid(replace_invalid_utf8(s, cs[0])); break;
        case 25: valid(reverse(s)); break;
        case 26: valid(split(s, c2, params())); break;
        case 27: valid(split(s, t, params())); break;
        case 28: valid(split_lines(s, params())); break;
        case 29: valid(trim(s, c2)); break;
        case 30: valid(trim_start(s)); valid(trim_end(s)); break;
        case 31: valid(s, ci::find_first(s, t)); break;
        case 32: valid(s, ci::find_last(s, t)); break;
        case 33: valid(ci::replace(s, t, "\xC3\xA6", i)); break;
        case 34: valid(ci::split(s, t, params())); break;
        case 35: valid(ci::split(s, c2, params())); break;
        case 36: valid(to_upper(s)); break;
        case 37: valid(to_lower(s)); break;
        case 38: valid(to_title(s)); break;
        case 39: valid(escape_json(s)); break;
        case 40: valid(unescape(std::string(s))); break;
        case 41: { std::string x(s); x.resize(unescape(x.data(), x.size())); valid(x); break; }
        case 42: { auto v = s; (void)unescape_next(v); valid(v); break; }
        case 43: valid(to_composed(s)); break;
        case 44: valid(to_decomposed(s)); break;
        case 45: { auto v = s; (void)pop_utf8_codepoint(v); valid(v); break; }
        case 46: { auto v = s; (void)pop_last_utf8_codepoint(v); valid(v); break; }
        case 47: { auto v = s; (void)remove_utf8_codepoint(v); valid(v); remove_last_utf8_codepoint(v); valid(v); break; }
        case 48: valid(s, find_first_escapable_char(s)); break;
        case 49: valid(s, find_first_escaped_char(s)); break;
        // Arbitrary bytes made valid.
        default: break;
        }
    });
    ys_reach(t1 ? "throws" : "valid");
}
