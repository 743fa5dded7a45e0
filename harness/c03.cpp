// C03: backward decoding mirrors forward decoding.
#include "common.hpp"
#include "Ystring/DecodeUtf8.hpp"

using namespace ystring;

extern "C" void ys_main()
{
    Text b;
    size_t len = b.n;
    std::string_view s = b.view();
    const char* begin = b.p;
    if (ys_param("mode", 0) == 0)
    {
        // Strings that decode forward without error.
        Ref<TEXT> r(s);
        ys_assume(r.valid);
        part_by_shape(r);
        const char *d = begin + len, *k = d;
        std::string_view v = s, w = s;
        for (size_t i = r.n; i-- > 0;)
        {
            ys_check(decode_prev(begin, d) == r.cp[i], "decode_prev: value");
            ys_check(d == begin + r.start[i], "decode_prev: boundary");
            ys_check(skip_prev(begin, k), "skip_prev: true");
            ys_check(k == d, "skip_prev: boundary");
            auto c = pop_last_utf8_codepoint(v);
            ys_check(c.has_value() && *c == r.cp[i], "pop_last_utf8_codepoint: value");
            ys_check(v.data() == begin && v.size() == r.start[i], "pop_last_utf8_codepoint: boundary");
            ys_check(remove_last_utf8_codepoint(w), "remove_last_utf8_codepoint: true");
            ys_check(w.data() == begin && w.size() == r.start[i], "remove_last_utf8_codepoint: boundary");
            ys_reach("codepoint");
        }
        ys_check(d == begin, "decode_prev: reaches the start");
        ys_check(decode_prev(begin, d) == INVALID_CHAR && d == begin, "decode_prev: at the start");
        ys_check(!skip_prev(begin, k) && k == begin, "skip_prev: at the start");
        ys_check(!pop_last_utf8_codepoint(v).has_value(), "pop_last_utf8_codepoint: at the start");
        ys_check(!remove_last_utf8_codepoint(w), "remove_last_utf8_codepoint: at the start");
        return;
    }
    // Arbitrary bytes.
    const char* d = begin + len;
    char32_t r = decode_prev(begin, d);
    ys_observe(r);
    ys_check(d >= begin && d <= begin + len, "decode_prev: stays in range");
    if (r == INVALID_CHAR)
    {
        ys_check(d == begin + len, "decode_prev: iterator unmoved");
        ys_reach("malformed");
    }
    else
    {
        char32_t c = 0;
        size_t at = size_t(d - begin);
        unsigned n = ref_decode(b.p, at, len, c);
        ys_check(n == len - at && n != 0, "decode_prev: steps over what decodes forward");
        ys_check(c == r, "decode_prev: the value that decodes forward");
        ys_reach("decoded");
    }
    // The last code point is found when there is one.
    bool any = false;
    for (size_t n = 1; n <= 4 && n <= len; ++n)
    {
        char32_t c = 0;
        if (ref_decode(b.p, len - n, len, c) == n)
            any = true;
    }
    ys_check(any == (r != INVALID_CHAR), "decode_prev: finds the last code point");
    const char* k = begin + len;
    bool q = skip_prev(begin, k);
    ys_check(q == (len != 0), "skip_prev: false only when empty");
    ys_check(k >= begin && k <= begin + len && (len == 0 || k < begin + len), "skip_prev: moves back within the range");
    ys_observe(size_t(k - begin));
    std::string_view v = s;
    std::optional<char32_t> o;
    bool t = throws([&] { o = pop_last_utf8_codepoint(v); });
    ys_check(t == (len != 0 && !any), "pop_last_utf8_codepoint: throws exactly when malformed");
    if (t)
        ys_check(v.data() == s.data() && v.size() == s.size(), "pop_last_utf8_codepoint: view unchanged");
    else if (len)
        ys_check(o.has_value() && *o == r, "pop_last_utf8_codepoint: value");
    std::string_view w = s;
    ys_check(remove_last_utf8_codepoint(w) == (len != 0), "remove_last_utf8_codepoint: false only when empty");
    ys_check(w.data() == begin && (len == 0 || w.size() < len), "remove_last_utf8_codepoint: moves back within the range");
}
