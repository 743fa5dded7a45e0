// C21: the class of every char32_t value and the predicates.
#include "ucd_ref.hpp"
#include "Ystring/CodepointPredicates.hpp"

using namespace ystring;

extern "C" void ys_main()
{
    char32_t c = ranged_char("c");
    if (ys_param("mode", 0) == 0)
    {
        if (ys_param("earlier", 0))
            ys_observe(get_char_class(earlier(c)));
        auto got = get_char_class(c);
        ys_check(got == ucd_lookup(UCD_CLASS, c, 1u << 29), "get_char_class");
        ys_observe(got);
        ys_reach(c > UNICODE_LAST ? "not a code point" : "code point");
        return;
    }
    // The predicates are unions of classes, in terms of get_char_class as
    // decided above.
    enum : uint32_t
    {
        Lu = 1u << 0, Ll = 1u << 1, Lt = 1u << 2, Lm = 1u << 3, Lo = 1u << 4, Mn = 1u << 5, Mc = 1u << 6, Me = 1u << 7,
        Nd = 1u << 8, Nl = 1u << 9, No = 1u << 10, Pc = 1u << 11, Pd = 1u << 12, Ps = 1u << 13, Pe = 1u << 14,
        Pi = 1u << 15, Pf = 1u << 16, Po = 1u << 17, Sm = 1u << 18, Sc = 1u << 19, Sk = 1u << 20, So = 1u << 21,
        Zs = 1u << 22, Zl = 1u << 23, Zp = 1u << 24, Cc = 1u << 25, Cf = 1u << 26, Cs = 1u << 27, Co = 1u << 28,
        L = Lu | Ll | Lt | Lm | Lo, M = Mn | Mc | Me, N = Nd | Nl | No, P = Pc | Pd | Ps | Pe | Pi | Pf | Po,
        S = Sm | Sc | Sk | So, Z = Zs | Zl | Zp
    };
    uint32_t k = get_char_class(c);
    auto in = [&](uint32_t mask) { return (k & mask) != 0; };
    bool newline = (c >= 0xA) & (c <= 0xD) | c == 0x85 | c == 0x2028 | c == 0x2029;
    bool hex = (c >= '0') & (c <= '9') | (c >= 'a') & (c <= 'f') | (c >= 'A') & (c <= 'F');
    ys_check(is_alpha_numeric(c) == in(L | N), "is_alpha_numeric");
    ys_check(is_cased_letter(c) == in(Lu | Ll | Lt), "is_cased_letter");
    ys_check(is_control(c) == in(Cc), "is_control");
    ys_check(is_format(c) == in(Cf), "is_format");
    ys_check(is_graphical(c) == in(L | M | N | P | S), "is_graphical");
    ys_check(is_hex_digit(c) == hex, "is_hex_digit");
    ys_check(is_letter(c) == in(L), "is_letter");
    ys_check(is_lower(c) == in(Ll), "is_lower");
    ys_check(is_mark(c) == in(M), "is_mark");
    ys_check(is_newline(c) == newline, "is_newline");
    ys_check(is_number(c) == in(N), "is_number");
    ys_check(is_punctuation(c) == in(P), "is_punctuation");
    ys_check(is_separator(c) == in(Z), "is_separator");
    ys_check(is_surrogate(c) == in(Cs), "is_surrogate");
    ys_check(is_symbol(c) == in(S), "is_symbol");
    ys_check(is_upper(c) == in(Lu), "is_upper");
    ys_check(is_visible(c) == in(L | M | N | P | S | Z), "is_visible");
    ys_check(is_whitespace(c) == (c == 9 || newline || in(Z)), "is_whitespace");
    ys_reach("predicates");
}
