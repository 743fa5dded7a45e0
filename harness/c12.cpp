// C12: the first or last code point that is among some characters, in a
// CodepointSet or satisfies a predicate.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/CaseInsensitive.hpp"
#include "Ystring/ConvertCase.hpp"

using namespace ystring;

static constexpr size_t N = TEXT;

struct Chars32
{
    size_t n;
    char32_t* p;
    explicit Chars32(size_t k) : n(k), p(static_cast<char32_t*>(take_block(4 * k)))
    {
        for (size_t i = 0; i < k; ++i)
            p[i] = ys_u32("char");
    }
    Chars32(const Chars32&) = delete;
    ~Chars32() { give_block(p); }
    std::u32string_view view() const { return {p, n}; }
};

template <typename Match>
INL void check_first(std::string_view s, const Ref<N>& r, size_t from, std::pair<Subrange, char32_t> got, Match match)
{
    for (size_t i = from; i < r.n; ++i)
    {
        if (match(r.cp[i]))
        {
            ys_check(got.first.offset == r.start[i] && got.first.end() == r.start[i + 1], "first: range");
            ys_check(got.second == r.cp[i], "first: value");
            ys_observe(got.first.offset);
            ys_reach("first");
            return;
        }
    }
    ys_check(got.first.length == 0 && got.second == INVALID_CHAR, "first: none");
    ys_reach("no first");
}

template <typename Match>
INL void check_last(std::string_view s, const Ref<N>& r, size_t to, std::pair<Subrange, char32_t> got, Match match)
{
    for (size_t i = to; i-- > 0;)
    {
        if (match(r.cp[i]))
        {
            ys_check(got.first.offset == r.start[i] && got.first.end() == r.start[i + 1], "last: range");
            ys_check(got.second == r.cp[i], "last: value");
            ys_observe(got.first.offset);
            ys_reach("last");
            return;
        }
    }
    ys_check(got.first.length == 0 && got.second == INVALID_CHAR, "last: none");
    ys_reach("no last");
}

extern "C" void ys_main()
{
    Text b;
    auto s = b.view();
    Ref<N> r(s);
    ys_assume(r.text());
    part_by_shape(r);
    unsigned mode = (unsigned)ys_param("mode", 0);
    size_t k = ys_param("chars", 1);
    if (mode == 5)
    {
        char32_t c = ys_u32("c");
        bool want = false;
        for (size_t i = 0; i < r.n; ++i)
            want |= r.cp[i] == c;
        ys_check(contains(s, c) == want, "contains");
        ys_reach("contains");
        return;
    }
    size_t at = place("at", r.n);
    size_t off = r.start[at];
    // The default offset, or any other beyond the end, for searches for the last.
    size_t lastOff = off;
    if (at == r.n && ys_u1("beyond"))
    {
        lastOff = ys_u64("offset");
        ys_assume(lastOff > s.size());
    }
    if (mode == 0)
    {
        Chars32 c(k);
        auto match = [&](char32_t x)
        {
            bool m = false;
            for (size_t i = 0; i < k; ++i)
                m |= c.p[i] == x;
            return m;
        };
        check_first(s, r, at, find_first_of(s, c.view(), off), match);
        check_last(s, r, at, find_last_of(s, c.view(), lastOff), match);
        if (at == 0)
            check_first(s, r, at, find_first_of(s, c.view()), match);
        if (at == r.n)
            check_last(s, r, at, find_last_of(s, c.view()), match);
    }
    else if (mode == 1)
    {
        CodepointSet set;
        Chars32 lo(k), hi(k);
        for (size_t i = 0; i < k; ++i)
            set.add_range(lo.p[i], hi.p[i]);
        set.negated = ys_u1("negated");
        auto match = [&](char32_t x)
        {
            bool m = false;
            for (size_t i = 0; i < k; ++i)
                m |= lo.p[i] <= x & x <= hi.p[i];
            return m != set.negated;
        };
        check_first(s, r, at, find_first_of(s, set, off), match);
        check_last(s, r, at, find_last_of(s, set, lastOff), match);
    }
    else if (mode == 2)
    {
        char32_t lo = ys_u32("lo"), mask = ys_u32("mask");
        auto match = [&](char32_t x) { return (x & mask) == lo; };
        check_first(s, r, at, find_first_where(s, match, off), match);
        check_last(s, r, at, find_last_where(s, match, lastOff), match);
    }
    else if (mode == 3)
    {
        Chars32 c(k);
        // to_upper itself is decided by C17.
        auto match = [&](char32_t x)
        {
            bool m = false;
            for (size_t i = 0; i < k; ++i)
                m |= to_upper(c.p[i]) == to_upper(x);
            return m;
        };
        check_first(s, r, at, case_insensitive::find_first_of(s, c.view(), off), match);
        check_last(s, r, at, case_insensitive::find_last_of(s, c.view(), lastOff), match);
    }
    else
    {
        CodepointSet set;
        Chars32 c(k);
        for (size_t i = 0; i < k; ++i)
            set.add_codepoint(c.p[i]);
        set.negated = ys_u1("negated");
        // The membership itself is decided by C22.
        auto match = [&](char32_t x) { return set.case_insensitive_contains(x); };
        check_first(s, r, at, case_insensitive::find_first_of(s, set, off), match);
        check_last(s, r, at, case_insensitive::find_last_of(s, set, lastOff), match);
    }
}
