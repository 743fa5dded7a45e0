// C06: UTF-8/UTF-32 conversion round-trips.
#include "common.hpp"
#include "Ystring/CodepointConstants.hpp"
#include "Ystring/Utf32.hpp"

using namespace ystring;

extern "C" void ys_main()
{
    size_t len = ys_param("len", 3), fill = ys_param("fill", 0);
    if (ys_param("mode", 0) == 0)
    {
        std::vector<char32_t> u;
        for (size_t i = 0; i < fill; ++i)
            u.push_back(char32_t(0x100 + i * (ys_param("style", 0) ? 0x7F1 : 1) % 0x10F000));
        for (size_t i = 0; i < len; ++i)
        {
            u.push_back(ys_u32("u"));
            ys_assume(u.back() <= UNICODE_LAST);
        }
        for (size_t i = 0, k = ys_param("tail", 0); i < k; ++i)
            u.push_back(char32_t(i % 3 ? i * 0x321 % 0x110000 : i + 0x20));
        uint64_t sh = 0;
        for (size_t i = fill; i < fill + len; ++i)
            sh = sh * 4 + (u[i] < 0x80 ? 0 : u[i] < 0x800 ? 1 : u[i] < 0x10000 ? 2 : 3);
        ys_part(sh);
        std::string s = from_utf32(std::u32string_view(u.data(), u.size()));
        std::u32string v = to_utf32(s);
        ys_check(v.size() == u.size(), "to_utf32(from_utf32(u)): length");
        uint32_t d = 0;
        for (size_t i = 0; i < u.size(); ++i)
            d |= uint32_t(v[i] ^ u[i]);
        ys_check(d == 0, "to_utf32(from_utf32(u)): value");
        observe(s);
        ys_reach("u32");
        return;
    }
    Text b;
    std::string_view s = b.view();
    Ref<TEXT> r(s);
    if (ys_param("mode", 0) == 2)
        ys_assume(r.valid);
    part_by_shape(r);
    std::u32string u;
    bool t = throws([&] { u = to_utf32(s); });
    ys_check(t == !r.valid, "to_utf32: throws exactly when malformed");
    if (t)
    {
        ys_reach("malformed");
        return;
    }
    ys_check(u.size() == r.n, "to_utf32: length");
    uint32_t d = 0;
    for (size_t i = 0; i < r.n; ++i)
        d |= uint32_t(u[i] ^ r.cp[i]);
    ys_check(d == 0, "to_utf32: values");
    // Shortest form only.
    bool shortest = true;
    for (size_t i = 0; i < r.n; ++i)
    {
        char32_t c = r.cp[i];
        size_t n = r.start[i + 1] - r.start[i];
        size_t m = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c <= UNICODE_LAST ? 4 : 0;
        shortest = shortest & (m == n);
    }
    if (!shortest)
        return;
    std::string q = from_utf32(u);
    ys_check(same_bytes(q, s), "from_utf32(to_utf32(s))");
    observe(q);
    ys_reach("round trip");
}
