// C08 and C10: slicing and editing, by code points or by characters.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/CodepointPredicates.hpp"

using namespace ystring;

// start[0..n]: the offsets of the units.
INL void check_slices(std::string_view s, size_t n, const size_t* start)
{
    unsigned mode = (unsigned)ys_param("mode", 0);
    if (mode == 0)
    {
        auto a = pick("a", n), b = pick("b", n);
        size_t i = ref_cap(a, n), j = ref_cap(b, n);
        if (j < i)
            j = i;
        auto v = SUBSTRING(s, a, b);
        ys_observe(v.size());
        ys_check(is_slice(v, s, start[i], start[j]), "substring");
        ys_reach(i == j ? "empty" : "slice");
        if (b == PTRDIFF_MAX)
        {
            auto w = SUBSTRING(s, a);
            ys_check(is_slice(w, s, start[i], start[n]), "substring to the end");
        }
    }
    else if (mode == 1)
    {
        auto a = pick("a", n), b = pick("b", n);
        Text r("r", "rfill", "rlen", "rtail", "rstyle");
        size_t i = ref_cap(a, n), j = ref_cap(b, n);
        if (j < i)
            j = i;
        auto t = REPLACE(s, a, b, r.view());
        Out<TEXT_BYTES> want;
        want.text(s.substr(0, start[i]));
        want.text(r.view());
        want.text(s.substr(start[j]));
        ys_check(same_bytes(t, want.view()), "replace");
        observe(t);
        ys_reach("replace");
    }
    else if (mode == 2)
    {
        auto a = pick("a", n);
        Text r("r", "rfill", "rlen", "rtail", "rstyle");
        ptrdiff_t i = ref_index(a, n);
        std::string t;
        bool e = throws([&] { t = INSERTS(s, a, r.view()); });
        if (r.n == 0)
        {
            ys_check(e || same_bytes(t, s), "insert nothing");
            return;
        }
        ys_check(e == (i < 0), "insert: throws exactly when the position does not exist");
        if (e)
        {
            ys_reach("no position");
            return;
        }
        Out<TEXT_BYTES> want;
        want.text(s.substr(0, start[i]));
        want.text(r.view());
        want.text(s.substr(start[i]));
        ys_check(same_bytes(t, want.view()), "insert");
        observe(t);
        ys_reach("insert");
    }
    else
    {
        auto a = pick("a", n);
        char32_t c = ys_u32("c");
        ptrdiff_t i = ref_index(a, n);
        std::string t;
        bool e = throws([&] { t = INSERT(s, a, c); });
        ys_check(e == (i < 0 || c > UNICODE_LAST), "insert one: throws exactly when the position or value is invalid");
        if (e)
            return;
        Out<TEXT_BYTES> want;
        want.text(s.substr(0, start[i]));
        want.cp(c);
        want.text(s.substr(start[i]));
        ys_check(same_bytes(t, want.view()), "insert one");
        observe(t);
        ys_reach("insert one");
    }
}
