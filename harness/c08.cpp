// C08: code point slicing and editing act on exactly the named code points.
#define SUBSTRING get_codepoint_substring
#define REPLACE replace_codepoints
#define INSERTS insert_codepoints
#define INSERT insert_codepoint
#include "slices.hpp"

extern "C" void ys_main()
{
    Text b;
    std::string_view s = b.view();
    Ref<TEXT> r(s);
    ys_assume(r.text());
    part_by_shape(r);
    check_slices(s, r.n, r.start);
}
