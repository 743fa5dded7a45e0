// The pieces a text is split into.
#pragma once
#include "common.hpp"
#include "Ystring/Algorithms.hpp"

using ystring::SplitParams;

INL SplitParams any_params()
{
    SplitParams p;
    p.max_splits = limit("max");
    p.ignore_empty = ys_u1("ignore");
    return p;
}

// find(from, start, end): the first separator at or after from.
template <typename Find>
INL void check_pieces(std::string_view s, const std::vector<std::string_view>& got, SplitParams p, Find find)
{
    size_t k = 0, from = 0;
    bool rest = false;
    while (true)
    {
        if (p.max_splits == k)
        {
            ys_reach("limit");
            rest = true;
        }
        size_t start = s.size(), end = s.size();
        bool found = !rest && find(from, start, end);
        size_t stop = found ? start : s.size();
        if (!p.ignore_empty || stop != from)
        {
            if (k >= got.size())
            {
                ys_check(false, "too few pieces");
                return;
            }
            ys_check(is_slice(got[k], s, from, stop), "piece");
            ++k;
        }
        else
            ys_reach("ignored");
        if (!found)
            break;
        from = end;
    }
    ys_check(k == got.size(), "number of pieces");
    ys_observe(k);
    ys_reach(k > 1 ? "pieces" : "whole");
}
