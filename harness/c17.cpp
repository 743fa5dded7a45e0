// C17: the case of every single char32_t value.
#include "ucd_ref.hpp"
#include "Ystring/ConvertCase.hpp"

extern "C" void ys_main()
{
    char32_t c = ranged_char("c");
    unsigned mode = (unsigned)ys_param("mode", 0);
    auto map = [&](char32_t x)
    { return mode == 0 ? ystring::to_upper(x) : mode == 1 ? ystring::to_lower(x) : ystring::to_title(x); };
    if (ys_param("earlier", 0))
    {
        ys_observe(map(earlier(c)));
        mode = mode == 0 ? 1 : 0;
        ys_observe(map(earlier(c)));
        mode = (unsigned)ys_param("mode", 0);
    }
    char32_t got = map(c);
    char32_t want = c + (mode == 0   ? ucd_lookup(UCD_UPPER, c, 0)
                         : mode == 1 ? ucd_lookup(UCD_LOWER, c, 0)
                                     : ucd_lookup(UCD_TITLE, c, 0));
    ys_check(got == want, mode == 0 ? "to_upper" : mode == 1 ? "to_lower" : "to_title");
    ys_observe(got);
    ys_check(map(got) == got, "idempotent");
    ys_reach(mode == 0 ? "upper" : mode == 1 ? "lower" : "title");
}
