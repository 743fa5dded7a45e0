// C05: every public function on arbitrary bytes. The engine checks the memory
// accesses and arithmetic; here it is that nothing but YstringException is
// thrown and that what is returned lies inside the arguments.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/CaseInsensitive.hpp"
#include "Ystring/CodepointPredicates.hpp"
#include "Ystring/CodepointSet.hpp"
#include "Ystring/ConvertCase.hpp"
#include "Ystring/DecodeUtf8.hpp"
#include "Ystring/Escape.hpp"
#include "Ystring/Normalize.hpp"
#include "Ystring/TokenIterator.hpp"
#include "Ystring/Unescape.hpp"
#include "Ystring/Utf32.hpp"

using namespace ystring;
namespace ci = ystring::case_insensitive;

INL void range(const Subrange& r, std::string_view s)
{
    ys_check(r.length == 0 || (r.offset <= s.size() && r.length <= s.size() - r.offset), "range inside the string");
}

INL void view(std::string_view v, std::string_view s) { ys_check(inside(v, s), "view inside the string"); }

INL void views(const std::vector<std::string_view>& vs, std::string_view s)
{
    for (auto v : vs)
        view(v, s);
}

INL void position(size_t p, std::string_view s)
{
    ys_check(p <= s.size() || p == std::string_view::npos, "position inside the string");
}

INL void text(const std::string& s)
{
    // Every byte has a value.
    unsigned sum = 0;
    for (char c : s)
        sum += (unsigned char)c;
    ys_observe(sum);
}

static bool odd(char32_t c) { return c & 1; }

// An offset inside the string or, for functions that search backwards, npos.
INL size_t offset(std::string_view s, bool back = false)
{
    if (back && ys_u1("npos"))
        return std::string_view::npos;
    return place("offset", s.size());
}

extern "C" void ys_main()
{
    Text b;
    auto s = ys_param("null", 0) ? std::string_view() : b.view();
    if (ys_param("cont", 0)) // a long run of continuation bytes
        for (size_t i = 1; i < b.n; ++i)
            ys_assume((b.p[i] & 0xC0) == 0x80);
    part_by_bytes(b.any());
    Text2 b2("t");
    auto t = ys_param("null", 0) ? std::string_view() : b2.view();
    char32_t cs[2] = {ys_u32("c0"), ys_u32("c1")};
    std::u32string_view c2(cs, 2);
    auto i = pick("i", s.size()), j = pick("j", s.size());
    auto set = [&]
    {
        CodepointSet r;
        r.add_codepoint(cs[0]);
        r.add_range(cs[0], cs[1]);
        r.negated = ys_u1("negated");
        return r;
    };
    auto split_params = [&]
    {
        SplitParams p;
        p.max_splits = size_t(j);
        p.ignore_empty = ys_u1("ignore");
        return p;
    };
    bool t1 = throws([&]
    {
        switch (ys_param("fn", 0))
        {
        case 0: { std::string x(s); append(x, cs[0]); text(x); break; }
        case 1: text(append(s, cs[0])); break;
        case 2: ys_observe(contains(s, cs[0])); break;
        case 3: ys_check(count_chars(s) <= s.size(), "count"); break;
        case 4: ys_check(count_codepoints(s) <= s.size(), "count"); break;
        case 5: ys_observe(ends_with(s, t) + 2 * starts_with(s, t)); break;
        case 6: range(find_first(s, t, offset(s)), s); break;
        case 7: range(find_first_newline(s, offset(s)), s); break;
        case 8: range(find_first_of(s, c2, offset(s)).first, s); break;
        case 9: range(find_first_of(s, set(), offset(s)).first, s); break;
        case 10: range(find_first_where(s, odd, offset(s)).first, s); break;
        case 11: range(find_last(s, t, offset(s, true)), s); break;
        case 12: range(find_last_newline(s, offset(s, true)), s); break;
        case 13: range(find_last_of(s, c2, offset(s, true)).first, s); break;
        case 14: range(find_last_of(s, set(), offset(s, true)).first, s); break;
        case 15: range(find_last_where(s, odd, offset(s, true)).first, s); break;
        case 16: position(get_char_pos(s, i), s); break;
        case 17: range(get_char_range(s, i), s); break;
        case 18: view(get_char_substring(s, i, j), s); break;
        case 19: range(get_codepoint(s, i).first, s); break;
        case 20: position(get_codepoint_pos(s, i), s); break;
        case 21: view(get_codepoint_substring(s, i, j), s); break;
        case 22: range(get_next_char_range(s, offset(s)), s); break;
        case 23: range(get_prev_char_range(s, offset(s)), s); break;
        case 24: text(insert_chars(s, i, t)); break;
        case 25: text(insert_char(s, i, cs[0])); break;
        case 26: text(insert_codepoint(s, i, cs[0])); break;
        case 27: text(insert_codepoints(s, i, t)); break;
        case 28: ys_observe(is_valid_utf8(s)); break;
        case 29: { std::string_view v[] = {s, t, s};
                   if (size_t n = choose("pieces", 3))
                   {
                       // In a block of exactly that size, so that no more is read.
                       std::vector<std::string_view> w(v, v + n);
                       text(join(w.begin(), w.end(), t));
                   }
                   else
                       text(join((std::string_view*)nullptr, (std::string_view*)nullptr, t));
                   break; }
        case 30: text(replace(s, t, t, i)); break;
        case 31: text(replace(s, t, "", i)); break;
        case 32: text(replace_chars(s, i, j, t)); break;
        case 33: text(replace_codepoints(s, i, j, t)); break;
        case 34: text(replace_codepoint(s, cs[0], cs[1], i)); break;
        case 35: text(replace_invalid_utf8(s, cs[0])); break;
        case 36: { std::string x(s); text(replace_invalid_utf8(x, cs[0])); break; }
        case 37: text(reverse(s)); break;
        case 38: views(split(s, c2, split_params()), s); break;
        case 39: views(split(s, t, split_params()), s); break;
        case 40: views(split_lines(s, split_params()), s); break;
        case 41: views(split_where(s, [](auto x) { return find_first_where(x, odd).first; }, split_params()), s); break;
        case 42: view(trim(s), s); break;
        case 43: view(trim_end(s), s); view(trim_end(s, c2), s); break;
        case 44: view(trim_start(s), s); view(trim_start(s, c2), s); break;
        case 45: view(trim_where(s, odd), s); view(trim_end_where(s, odd), s); view(trim_start_where(s, odd), s); break;
        case 46: ys_observe(ci::compare(s, t) + ci::compare(t, s)); break;
        case 47: ys_observe(ci::equal(s, t) + 2 * ci::less(s, t)); break;
        case 48: ys_observe(ci::starts_with(s, t)); break;
        case 49: ys_observe(ci::ends_with(s, t)); break;
        case 50: range(ci::find_first(s, t, offset(s)), s); break;
        case 51: range(ci::find_first_of(s, c2, offset(s)).first, s); break;
        case 52: range(ci::find_first_of(s, set(), offset(s)).first, s); break;
        case 53: range(ci::find_last(s, t, offset(s, true)), s); break;
        case 54: range(ci::find_last_of(s, c2, offset(s, true)).first, s); break;
        case 55: range(ci::find_last_of(s, set(), offset(s, true)).first, s); break;
        case 56: text(ci::replace(s, t, t, i)); break;
        case 57: views(ci::split(s, c2, split_params()), s); break;
        case 58: views(ci::split(s, t, split_params()), s); break;
        case 59: text(to_upper(s)); break;
        case 60: text(to_lower(s)); break;
        case 61: text(to_title(s)); break;
        case 62: range(find_first_escapable_char(s, offset(s)), s); break;
        case 63: ys_observe(has_escapable_chars(s)); text(escape_json(s)); break;
        case 64: text(to_composed(s)); break;
        case 65: text(to_decomposed(s)); break;
        case 66: ys_observe(decompose(cs[0]).size()); break;
        case 67: range(find_first_escaped_char(s, offset(s)), s); break;
        case 68: ys_observe(has_escaped_chars(s)); break;
        case 69: { size_t k = unescape(b.p, b.n); ys_check(k <= b.n, "length"); break; }
        case 70: text(unescape(std::string(s))); break;
        case 71: { auto v = s; bool did; (void)unescape_next(v, ys_u1("flag") ? &did : nullptr); view(v, s); break; }
        case 72: text(from_utf32(cs[0])); text(from_utf32(c2)); break;
        case 73: ys_check(to_utf32(s).size() <= s.size(), "count"); break;
        case 74: { auto v = s; (void)pop_utf8_codepoint(v); view(v, s); break; }
        case 75: { auto v = s; (void)pop_last_utf8_codepoint(v); view(v, s); break; }
        case 76: { auto v = s; remove_utf8_codepoint(v); view(v, s); remove_last_utf8_codepoint(v); view(v, s); break; }
        case 77: ys_observe(set().contains(cs[1])); break;
        case 78: ys_observe(set().case_insensitive_contains(cs[1])); break;
        case 79:
        {
            CodepointSet x;
            x.add_codepoints(c2);
            ys_observe(x.contains(cs[0]));
            ys_observe(contains(c2, cs[0]) + 2 * case_insensitive_contains(c2, cs[0]));
            break;
        }
        case 80: { TokenIterator it(s, [&](auto x) { return find_first(x, t); });
            for (int k = 0; k < 6; ++k) { view(it.part(), s); view(it.token(), s); view(it.remainder(), s); if (!it.next()) break; } break; }
        case 81: text(replace(s, "e", t, i)); break;
        case 82: (void)case_insensitive_compare(cs[0], cs[1]); break;
        }
    });
    ys_reach(t1 ? "throws" : "returns");
}
