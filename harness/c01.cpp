// C01: UTF-8 encoding is exact for every code point.
#include "common.hpp"
#include "Ystring/Algorithms.hpp"
#include "Ystring/Utf32.hpp"

using namespace ystring;

extern "C" void ys_main()
{
    unsigned mode = (unsigned)ys_param("mode", 0);
    size_t len = ys_param("len", 0);
    if (mode < 2)
    {
        SymBuf b(len, "prefix");
        char32_t c = ys_u32("c");
        char e[4];
        unsigned n = ref_encode(c, e);
        if (mode == 0)
        {
            std::string s(b.view());
            std::string* r = nullptr;
            bool t = throws([&] { r = &append(s, c); });
            ys_check(t == (n == 0), "append throws exactly above U+10FFFF");
            ys_check(t || r == &s, "append returns its argument");
            ys_check(s.size() == len + n, "append: length");
            ys_check(same_bytes(std::string_view(s).substr(0, len), b.view()), "append: existing content");
            ys_check(same_bytes(std::string_view(s).substr(len), {e, n}), "append: encoding");
            observe(s);
            ys_reach(t ? "invalid" : "valid");
        }
        else
        {
            std::string s;
            bool t = throws([&] { s = append(b.view(), c); });
            ys_check(t == (n == 0), "append (copy) throws exactly above U+10FFFF");
            if (t)
                return;
            ys_check(s.size() == len + n, "append (copy): length");
            ys_check(same_bytes(std::string_view(s).substr(0, len), b.view()), "append (copy): existing content");
            ys_check(same_bytes(std::string_view(s).substr(len), {e, n}), "append (copy): encoding");
            observe(s);
            ys_reach("copy");
        }
    }
    else if (mode == 2)
    {
        char32_t c = ys_u32("c");
        char e[4];
        unsigned n = ref_encode(c, e);
        std::string s = from_utf32(c);
        ys_check(same_bytes(s, {e, n}), "from_utf32: encoding of one code point");
        observe(s);
        ys_reach("one");
    }
    else
    {
        size_t before = ys_param("fill", 0);
        // Concrete code points before the symbolic ones move them past the
        // end of the string's own buffer.
        std::vector<char32_t> u;
        Out<TEXT_BYTES> want;
        for (size_t i = 0; i < before; ++i)
        {
            u.push_back(char32_t('a' + i % 26));
            want.byte(char('a' + i % 26));
        }
        for (size_t i = 0; i < len; ++i)
        {
            u.push_back(ys_u32("u"));
            want.cp(u.back());
        }
        std::string s = from_utf32(std::u32string_view(u.data(), u.size()));
        ys_check(same_bytes(s, want.view()), "from_utf32: encoding of a sequence");
        observe(s);
        ys_reach("sequence");
    }
}
