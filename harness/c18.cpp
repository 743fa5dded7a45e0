// C18: case conversion of strings, in terms of the functions for code points
// that C17 and C21 decide.
#include "common.hpp"
#include "Ystring/CodepointPredicates.hpp"
#include "Ystring/ConvertCase.hpp"

using namespace ystring;

extern "C" void ys_main()
{
    unsigned mode = (unsigned)ys_param("mode", 0);
    Text b;
    auto s = b.view();
    part_by_bytes(b.any());
    Ref<TEXT> r(s);
    ys_assume(r.shortest);
    bool bad = !r.valid;
    if (!bad)
        for (size_t i = 0; i < r.n; ++i)
            bad |= r.cp[i] > UNICODE_LAST;
    std::string got;
    bool thrown = throws([&] { got = mode == 0 ? to_upper(s) : mode == 1 ? to_lower(s) : to_title(s); });
    ys_check(thrown == bad, "throws when malformed");
    if (bad)
    {
        ys_reach("malformed");
        return;
    }
    Out<TEXT_BYTES> want;
    bool inWord = false;
    for (size_t i = 0; i < r.n; ++i)
    {
        char32_t c = r.cp[i];
        if (mode == 0)
        {
            if (c == 0xDF)
                want.text("SS");
            else
                want.cp(to_upper(c));
        }
        else if (mode == 1)
            want.cp(to_lower(c));
        else if (!is_letter(c))
        {
            want.cp(c);
            inWord = false;
        }
        else
        {
            if (inWord)
                want.cp(to_lower(c));
            else if (c == 0xDF)
                want.text("Ss");
            else
                want.cp(to_title(c));
            inWord = true;
        }
    }
    ys_check(same_bytes(got, want.view()), mode == 0 ? "to_upper" : mode == 1 ? "to_lower" : "to_title");
    observe(got);
    ys_reach(mode == 0 ? "upper" : mode == 1 ? "lower" : "title");
}
