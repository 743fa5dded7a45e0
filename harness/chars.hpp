// The characters of a string: a code point and the marks that follow it.
#pragma once
#include "common.hpp"
#include "Ystring/CodepointPredicates.hpp"

template <size_t N>
struct Chars
{
    size_t n = 0;
    size_t start[N + 1];

    INL explicit Chars(const Ref<N>& r)
    {
        start[0] = 0;
        for (size_t i = 0; i < r.n; ++i)
        {
            // is_mark itself is decided by C21.
            if (i == 0 || !ystring::is_mark(r.cp[i]))
                start[n++] = r.start[i];
        }
        start[n] = r.start[r.n];
    }
};
