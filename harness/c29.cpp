// C29: what functions do without their optional arguments, and the small
// helpers that the rest is built of.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/Escape.hpp"
#include "Ystring/Unescape.hpp"

using namespace ystring;
namespace ci = ystring::case_insensitive;

using Found = std::pair<Subrange, char32_t>;
using Pieces = std::vector<std::string_view>;

INL bool eq(const Subrange& a, const Subrange& b) { return a.length == b.length && (a.length == 0 || a.offset == b.offset); }
INL bool eq(const Found& a, const Found& b) { return eq(a.first, b.first) && a.second == b.second; }
INL bool eq(std::string_view a, std::string_view b) { return same_bytes(a, b); }
INL bool eq(const Pieces& a, const Pieces& b)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i].size() != b[i].size() || (!a[i].empty() && a[i].data() != b[i].data()))
            return false;
    return true;
}

// Both give the same, or both throw.
template <typename F, typename G>
INL void same(F f, G g, const char* msg)
{
    decltype(f()) a{};
    decltype(g()) b{};
    bool t = throws([&] { a = f(); }), u = throws([&] { b = g(); });
    ys_check(t == u, msg);
    if (!t && !u)
        ys_check(eq(a, b), msg);
    ys_reach(t ? "throws" : "same");
}

#define SAME(x, y) same([&] { return x; }, [&] { return y; }, #x)

// An iterator over a range of any length.
struct Position
{
    using iterator_category = std::random_access_iterator_tag;
    using value_type = char;
    using difference_type = ptrdiff_t;
    using pointer = const char*;
    using reference = const char&;
    uint64_t pos;
    Position& operator++() { ++pos; return *this; }
    Position& operator--() { --pos; return *this; }
    Position& operator+=(ptrdiff_t n) { pos += uint64_t(n); return *this; }
    Position operator+(ptrdiff_t n) const { return {pos + uint64_t(n)}; }
    ptrdiff_t operator-(const Position& o) const { return ptrdiff_t(pos - o.pos); }
    bool operator==(const Position& o) const { return pos == o.pos; }
    bool operator!=(const Position& o) const { return pos != o.pos; }
    bool operator<(const Position& o) const { return pos < o.pos; }
    reference operator*() const { return *"a"; }
};

// Texts too long for anything but the defaults to reach the end of.
static void huge()
{
    const size_t n = 70000, m = ys_param("len", 2);
    std::string s(n, 'a');
    SymBuf b(m, "s");
    Ref<8> r(b.view());
    ys_assume(r.text());
    s.append(b.view());
    std::string_view v(s), last(b.view());
    ys_check(is_slice(get_codepoint_substring(v, 1), v, 1, n + m), "get_codepoint_substring");
    ys_check(is_slice(get_char_substring(v, 1), v, 1, n + m), "get_char_substring");
    ys_check(is_slice(get_codepoint_substring(v, -ptrdiff_t(r.n) - 1), v, n - 1, n + m), "get_codepoint_substring from the end");
    ys_check(eq(find_last(v, "a"), find_last(v, "a", n + m)), "find_last");
    if (m && r.n)
    {
        ys_check(eq(find_last(v, last), Subrange(n, m)) || last.find('a') != last.npos, "find_last");
        ys_check(find_last_where(v, [](char32_t) { return true; }).first.end() == n + m, "find_last_where");
    }
    std::string_view v2[] = {v.substr(n - 300)};
    ys_check(join(v2, v2 + 1) == v2[0], "join");
    ys_check(replace(v, "a", "").size() <= m && replace_codepoint(v, 'a', 'b').find('a') == std::string::npos, "replace");
    ys_check(split(v, "a").size() > n, "split");
    ys_reach("huge");
}

static void subrange()
{
    size_t o = ys_u64("offset"), l = ys_u64("length"), o2 = ys_u64("offset"), l2 = ys_u64("length");
    Subrange a(o, l), b(o2, l2), none, at(o);
    ys_check(a.start() == o && a.offset == o && a.length == l, "start");
    ys_check(a.end() == o + l, "end");
    ys_check(bool(a) == (l != 0), "empty");
    ys_check((a == b) == (o == o2 && l == l2), "equal");
    ys_check((a != b) == !(o == o2 && l == l2), "not equal");
    ys_check(!none && none.length == 0 && none.offset == std::string_view::npos, "none");
    ys_check(!at && at.offset == o && at.length == 0, "only an offset");
    Text t;
    auto s = t.view();
    size_t i = choose("i", s.size()), j = choose("j", s.size());
    ys_assume(i <= j);
    Subrange c(s.begin(), s.begin() + i, s.begin() + j);
    ys_check(c.offset == i && c.length == j - i, "from iterators");
    uint64_t p0 = ys_u64("begin"), p1 = ys_u64("first"), p2 = ys_u64("last");
    Subrange h(Position{p0}, Position{p1}, Position{p2});
    ys_check(h.offset == p1 - p0 && h.length == p2 - p1, "from far iterators");
    std::string x(s);
    Subrange d(x.begin(), x.begin() + i, x.begin() + j), e(s.data(), s.data() + i, s.data() + j);
    ys_check(d == c && e == c, "from other iterators");
    auto u = to_u8string_view(s);
    ys_check(u.size() == s.size() && (const void*)u.data() == (const void*)s.data(), "to_u8string_view");
    auto v = to_string_view(u);
    ys_check(v.size() == s.size() && v.data() == s.data(), "to_string_view");
    ys_reach("subrange");
}

extern "C" void ys_main()
{
    unsigned fn = (unsigned)ys_param("fn", 0);
    if (fn == 0)
        return subrange();
    if (fn == 39)
        return huge();
    Text b;
    auto s = b.view();
    part_by_bytes(b.any());
    Text2 b2("t");
    auto t = b2.view();
    bool bytes = fn == 1 || fn == 2 || fn == 13 || (fn >= 15 && fn <= 17) || fn == 20 || fn == 21 || fn == 25 || (fn >= 35 && fn <= 37);
    if (!bytes)
    {
        Ref<TEXT> r(s), q(t);
        ys_assume(r.text() & q.text());
    }
    char32_t cs[] = {ys_u32("c0"), ys_u32("c1")};
    std::u32string_view c2(cs, 2);
    auto i = pick("i", s.size());
    auto is = [&](char32_t c) { return bool((c == cs[0]) | (c == cs[1])); };
    auto set = [&]
    {
        CodepointSet x;
        ys_assume((cs[0] <= UNICODE_LAST) & (cs[1] <= UNICODE_LAST));
        x.add_codepoints(c2);
        return x;
    };
    const size_t npos = std::string_view::npos;
    const ptrdiff_t all = PTRDIFF_MAX;
    const SplitParams keep{SIZE_MAX, false};
    std::u32string_view blank(U" \t\n\r", 4);
    switch (fn)
    {
    case 1: SAME(find_first(s, t), find_first(s, t, 0)); break;
    case 2: SAME(find_last(s, t), find_last(s, t, s.size())); SAME(find_last(s, t), find_last(s, t, npos)); break;
    case 3: SAME(find_first_newline(s), find_first_newline(s, 0)); break;
    case 4: SAME(find_last_newline(s), find_last_newline(s, s.size())); SAME(find_last_newline(s), find_last_newline(s, npos)); break;
    case 5: SAME(find_first_of(s, c2), find_first_of(s, c2, 0)); break;
    case 6: SAME(find_last_of(s, c2), find_last_of(s, c2, s.size())); SAME(find_last_of(s, c2), find_last_of(s, c2, npos)); break;
    case 7: SAME(find_first_of(s, set()), find_first_of(s, c2, 0)); break;
    case 8: SAME(find_last_of(s, set()), find_last_of(s, c2, s.size())); break;
    case 9: SAME(find_first_where(s, is), find_first_of(s, c2, 0)); break;
    case 10: SAME(find_last_where(s, is), find_last_of(s, c2, s.size())); break;
    case 11: SAME(get_char_substring(s, i), get_char_substring(s, i, all)); break;
    case 12: SAME(get_codepoint_substring(s, i), get_codepoint_substring(s, i, all)); break;
    case 13: SAME(replace(s, t, "-"), replace(s, t, "-", all)); break;
    case 14: SAME(replace_codepoint(s, cs[0], cs[1]), replace_codepoint(s, cs[0], cs[1], all)); break;
    case 15: SAME(replace_invalid_utf8(s), replace_invalid_utf8(s, char32_t(0xFFFD))); break;
    case 16:
    {
        std::string x(s), y(s);
        replace_invalid_utf8(x);
        replace_invalid_utf8(y, char32_t(0xFFFD));
        ys_check(same_bytes(x, y), "replace_invalid_utf8 in place");
        break;
    }
    case 17: SAME(split(s, t), split(s, t, keep)); break;
    case 18: SAME(split(s, c2), split(s, c2, keep)); break;
    case 19: SAME(split_lines(s), split_lines(s, keep)); break;
    case 20: SAME(split(s, t, IGNORE_EMPTY), split(s, t, SplitParams{SIZE_MAX, true})); break;
    case 21:
    {
        auto f = [&](std::string_view x) { return find_first(x, t); };
        SAME(split_where(s, f), split(s, t, keep));
        break;
    }
    case 22: SAME(trim(s), trim(s, blank)); break;
    case 23: SAME(trim_start(s), trim_start(s, blank)); break;
    case 24: SAME(trim_end(s), trim_end(s, blank)); break;
    case 25:
    {
        std::string_view v[] = {s, t, s};
        SAME(std::string_view(join(v, v + 3)) == std::string_view(join(v, v + 3, "")) ? t : s, t);
        SAME(join(v, v), std::string());
        break;
    }
    case 26: SAME(ci::find_first(s, t), ci::find_first(s, t, 0)); break;
    case 27: SAME(ci::find_last(s, t), ci::find_last(s, t, s.size())); SAME(ci::find_last(s, t), ci::find_last(s, t, npos)); break;
    case 28: SAME(ci::find_first_of(s, c2), ci::find_first_of(s, c2, 0)); break;
    case 29: SAME(ci::find_last_of(s, c2), ci::find_last_of(s, c2, s.size())); break;
    case 30: SAME(ci::find_first_of(s, set()), ci::find_first_of(s, set(), 0)); break;
    case 31: SAME(ci::find_last_of(s, set()), ci::find_last_of(s, set(), s.size())); break;
    case 32: SAME(ci::replace(s, t, "-"), ci::replace(s, t, "-", all)); break;
    case 33: SAME(ci::split(s, t), ci::split(s, t, keep)); break;
    case 34: SAME(ci::split(s, c2), ci::split(s, c2, keep)); break;
    case 35: SAME(find_first_escapable_char(s), find_first_escapable_char(s, 0)); break;
    case 36: SAME(find_first_escaped_char(s), find_first_escaped_char(s, 0)); break;
    case 37:
    {
        // Without a place for the flag.
        auto v = s, w = s;
        bool did = false;
        std::optional<char32_t> a, c;
        bool x = throws([&] { a = unescape_next(v); }), y = throws([&] { c = unescape_next(w, &did); });
        ys_check(x == y && a == c && v.data() == w.data() && v.size() == w.size(), "unescape_next");
        break;
    }
    case 38:
        for (char32_t c : ASCII_WHITESPACE)
            ys_check(c == ' ' || (c >= 9 && c <= 13), "ASCII_WHITESPACE");
        ys_check(ASCII_WHITESPACE.size() == 6, "ASCII_WHITESPACE");
        ys_check(trim(s, ASCII_WHITESPACE) == trim_where(s, [](char32_t c) { return c == ' ' || (c >= 9 && c <= 13); }), "trim");
        break;
    default: break;
    }
    ys_reach("defaults");
}
