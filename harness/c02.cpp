// C02: forward decoding is exact and safe on arbitrary bytes.
#include "common.hpp"
#include "Ystring/DecodeUtf8.hpp"

using namespace ystring;

extern "C" void ys_main()
{
    Text b;
    size_t len = b.n;
    std::string_view s = b.view();
    part_by_bytes(b.any());
    char32_t c = 0;
    unsigned n = len ? ref_decode(b.p, 0, len, c) : 0;
    {
        const char* it = b.p;
        char32_t r = decode_next(it, (const char*)b.p + len);
        if (n)
        {
            ys_check(r == c, "decode_next: value");
            ys_check(it == b.p + n, "decode_next: position");
            ys_reach("decoded");
        }
        else
        {
            ys_check(r == INVALID_CHAR, "decode_next: INVALID_CHAR");
            ys_check(it == b.p, "decode_next: iterator unmoved");
            ys_reach("malformed");
        }
        ys_observe(r);
    }
    {
        std::string_view v = s;
        std::optional<char32_t> r;
        bool t = throws([&] { r = pop_utf8_codepoint(v); });
        ys_check(t == (len && !n), "pop_utf8_codepoint: throws exactly when malformed");
        if (t)
        {
            ys_check(v.data() == s.data() && v.size() == s.size(), "pop_utf8_codepoint: view unchanged");
        }
        else if (len == 0)
        {
            ys_check(!r, "pop_utf8_codepoint: nullopt when empty");
            ys_check(v.empty(), "pop_utf8_codepoint: still empty");
            ys_reach("empty");
        }
        else
        {
            ys_check(r.has_value() && *r == c, "pop_utf8_codepoint: value");
            ys_check(v.data() == s.data() + n && v.size() == len - n, "pop_utf8_codepoint: bytes removed");
        }
    }
    {
        const char* it = b.p;
        bool r = skip_next(it, (const char*)b.p + len);
        ys_check(r == (len != 0), "skip_next: false only when empty");
        size_t k = size_t(it - b.p);
        ys_check(k <= len && (len == 0 || k >= 1), "skip_next: advances within the range");
        ys_check(!n || k == n, "skip_next: length of the code point");
        ys_observe(k);
        std::string_view v = s;
        bool q = remove_utf8_codepoint(v);
        ys_check(q == (len != 0), "remove_utf8_codepoint: false only when empty");
        size_t m = len - v.size();
        ys_check(v.size() <= len && v.data() == s.data() + m && (len == 0 || m >= 1),
                 "remove_utf8_codepoint: advances within the range");
        ys_check(!n || m == n, "remove_utf8_codepoint: length of the code point");
    }
    if (ys_param("chain", 0))
    {
        // From any position: the same through std::string's iterators.
        std::string str(s);
        size_t i = 0;
        auto it = str.begin();
        while (i < len)
        {
            unsigned m = ref_decode(b.p, i, len, c);
            char32_t r = decode_next(it, str.end());
            ys_check(r == (m ? c : INVALID_CHAR), "decode_next: value (string iterator)");
            ys_check(size_t(it - str.begin()) == i + m, "decode_next: position (string iterator)");
            if (!m)
                return;
            i += m;
        }
        ys_reach("chain");
    }
}
