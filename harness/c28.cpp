// C28: streaming ranges and sets.
#include "fake_ostream.hpp"
#include "Ystring/CodepointSet.hpp"
#include "Ystring/Subrange.hpp"

using namespace ystring;

extern "C" void* stream_set(void* os, const CodepointSet& set) asm("_ZN7ystringlsERSoRKNS_12CodepointSetE");
extern "C" void* stream_range(void* os, const Subrange& r) asm("_ZN7ystringlsERSoRKNS_8SubrangeE");

extern "C" void ys_main()
{
    FakeStream f;
    Out<256> want;
    void* r;
    if (ys_param("mode", 0) == 0)
    {
        Subrange s{ys_u64("offset"), ys_u64("length")};
        r = stream_range(f.stream(), s);
        want.text("{offset: ");
        number(want, s.offset);
        want.text(", length: ");
        number(want, s.length);
        want.text("}");
        ys_reach("range");
    }
    else
    {
        CodepointSet set;
        set.negated = ys_u1("negated");
        want.text(set.negated ? "[^" : "[");
        for (size_t i = 0, n = ys_param("ranges", 2); i < n; ++i)
        {
            char32_t a = ys_u32("first"), b = ys_u32("last");
            ys_assume(a <= UNICODE_LAST);
            ys_assume(b <= UNICODE_LAST);
            set.ranges.emplace_back(a, b);
            want.cp(a);
            if (a != b)
            {
                want.text("-");
                want.cp(b);
            }
            ys_reach(a == b ? "one" : "several");
        }
        want.text("]");
        r = stream_set(f.stream(), set);
        ys_reach(set.negated ? "negated" : "not negated");
    }
    ys_check(r == f.stream(), "returns the stream");
    ys_check(same_bytes(f.text(), want.view()), "text");
}
