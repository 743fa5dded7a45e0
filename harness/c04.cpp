// C04: validation and repair of malformed UTF-8.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/Utf32.hpp"

using namespace ystring;

extern "C" void ys_main()
{
    Text b;
    size_t size = b.n;
    std::string_view s = b.view();
    part_by_bytes(b.any());
    char32_t c = REPLACEMENT_CHARACTER;
    if (ys_param("anychar", 0))
    {
        c = ys_u32("c");
        ys_assume(c <= UNICODE_LAST);
    }
    // The reference: code points are kept, everything skip_next skips at a
    // byte that does not start one is replaced.
    Out<4 * TEXT_BYTES> want;
    bool valid = true;
    for (size_t i = 0; i < size;)
    {
        char32_t x = 0;
        unsigned n = ref_decode(b.p, i, size, x);
        if (n)
        {
            want.bytes(b.p + i, n);
            i += n;
            continue;
        }
        valid = false;
        want.cp(c);
        const char* it = b.p + i;
        skip_next(it, (const char*)b.p + size);
        size_t j = size_t(it - b.p);
        ys_check(j > i && j <= size, "skip_next advances");
        // What is skipped after the first byte is continuation bytes only.
        for (size_t k = i + 1; k < j; ++k)
            ys_check(ref_cont((unsigned char)b.p[k]), "only continuation bytes are skipped");
        i = j;
    }
    ys_check(is_valid_utf8(s) == valid, "is_valid_utf8");
    ys_check(throws([&] { (void)to_utf32(s); }) == !valid, "to_utf32 throws exactly when the string is not valid");
    std::string r = replace_invalid_utf8(s, c);
    ys_check(same_bytes(r, want.view()), "replace_invalid_utf8: result");
    ys_check(is_valid_utf8(r), "replace_invalid_utf8: the result is valid");
    std::string again = replace_invalid_utf8(std::string_view(r), c);
    ys_check(same_bytes(again, r), "replace_invalid_utf8: again");
    std::string t(s);
    std::string& ref = replace_invalid_utf8(t, c);
    ys_check(&ref == &t, "replace_invalid_utf8 (in place): returns its argument");
    ys_check(same_bytes(t, want.view()), "replace_invalid_utf8 (in place): result");
    observe(r);
    ys_reach(valid ? "valid" : "repaired");
}
