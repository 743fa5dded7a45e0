// C10: character slicing and editing act on exactly the named characters.
#define SUBSTRING get_char_substring
#define REPLACE replace_chars
#define INSERTS insert_chars
#define INSERT insert_char
#include "slices.hpp"
#include "chars.hpp"

extern "C" void ys_main()
{
    Text b;
    std::string_view s = b.view();
    Ref<TEXT> r(s);
    ys_assume(r.text());
    part_by_shape(r);
    Chars<TEXT> c(r);
    if (c.n < r.n)
        ys_reach("mark");
    check_slices(s, c.n, c.start);
}
