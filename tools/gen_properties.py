#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

A = "src/Ystring/Algorithms.cpp"; AH = "include/Ystring/Algorithms.hpp"
AU = "src/Ystring/AlgorithmUtilities.cpp"; AUH = "src/Ystring/AlgorithmUtilities.hpp"
D = "include/Ystring/DecodeUtf8.hpp"; E = "src/Ystring/EncodeUtf8.hpp"
U32 = "src/Ystring/Utf32.cpp"; CC = "src/Ystring/ConvertCase.cpp"; CL = "src/Ystring/CharClass.cpp"
CLT = "src/Ystring/CharClassTables.hpp"; N = "src/Ystring/Normalize.cpp"; NT = "src/Ystring/NormalizationTables.hpp"
ES = "src/Ystring/Escape.cpp"; UN = "src/Ystring/Unescape.cpp"; CS = "src/Ystring/Char32Set.cpp"
CI = "include/Ystring/CaseInsensitive.hpp"; TI = "include/Ystring/TokenIterator.hpp"; SR = "include/Ystring/Subrange.hpp"

prop("C01", "UTF-8 encoding is exact for every code point",
 "For every code point U+0000..U+10FFFF, append (both overloads) and from_utf32 (both overloads) add exactly the standard shortest 1-4 byte UTF-8 encoding of that code point after the existing content, which stays unchanged. For any value above U+10FFFF append throws YstringException and leaves the string it was given unchanged, and from_utf32 adds nothing.",
 "all 2^32 char32_t values, and any existing content of the target string",
 "The tests encode a dozen code points; the claim is about all 2^32 argument values and any previous content.",
 [E, A, U32], [("get_utf8_encoded_length / detail::encode_utf8", E), ("append", A), ("from_utf32", U32)])
prop("C02", "Forward decoding is exact and safe on arbitrary bytes",
 "decode_next on any byte range either returns the value of the lead byte (110xxxxx, 1110xxxx or 11110xxx followed by exactly 1, 2 or 3 continuation bytes, or one ASCII byte) at the start and advances past exactly those bytes, or returns INVALID_CHAR and leaves the iterator where it was; it never looks outside the range. pop_utf8_codepoint returns that value and removes those bytes, returns nullopt on an empty view, and on a malformed start throws YstringException leaving the view unchanged; skip_next and remove_utf8_codepoint return false only on an empty range and otherwise always advance by at least one byte, stay in range, and advance by exactly the code point's length when one can be decoded.",
 "all byte sequences (well-formed or not), starting anywhere",
 "Tests sample about 30 strings; truncated sequences at the end of a buffer and odd lead/continuation mixes form a combinatorial space.",
 [D], [("decode_next", D), ("skip_next", D), ("pop_utf8_codepoint / remove_utf8_codepoint", D)])
prop("C03", "Backward decoding mirrors forward decoding",
 "On every string that decodes forward without error, decode_prev/pop_last_utf8_codepoint repeated from the end yields exactly the same code points in reverse order with the same boundaries, and skip_prev/remove_last_utf8_codepoint stop at the same boundaries. On arbitrary bytes decode_prev either returns a value that decode_next returns for exactly the bytes it stepped over, or returns INVALID_CHAR with the iterator unmoved; skip_prev always moves back by at least one byte on a non-empty range, neither ever leaves the range or has undefined behaviour, and a throwing pop_last_utf8_codepoint leaves the view unchanged.",
 "all byte sequences, including long runs of continuation bytes",
 "The forward/backward agreement is a relation over all strings; tests only check a few hand-written strings in each direction.",
 [D], [("decode_prev", D), ("skip_prev", D), ("pop_last_utf8_codepoint / remove_last_utf8_codepoint", D)])
prop("C04", "Validation and repair of malformed UTF-8",
 "is_valid_utf8(s) is true exactly when s can be decoded from start to end, so exactly when to_utf32(s) does not throw. replace_invalid_utf8(s, c) keeps every decodable code point of s, in order and byte for byte, and puts one encoded c in place of each malformed sequence (a byte that does not start a code point together with the continuation bytes that skip_next skips with it); hence the result is valid, is s itself when s is valid, and repairing again changes nothing, and the in-place overload gives the same string.",
 "all byte strings and all replacement code points",
 "Tests repair two strings; the guarantee is about every malformed byte pattern and where it sits relative to valid text and the end of the string.",
 [A, D], [("is_valid_utf8", A), ("replace_invalid_utf8 (both overloads)", A)])
prop("C05", "Every function is memory-safe and well-behaved on any bytes",
 "For arbitrary byte strings (well-formed or not), arbitrary code points, arbitrary signed indexes and counts, and byte offsets within the string, every public function terminates, reads and writes only inside its arguments and its own results, has no undefined behaviour (no out-of-range shift, signed overflow or use of uninitialised memory), and either returns or throws YstringException, never another exception. Returned views and ranges lie inside the argument string, or are a documented not-found value.",
 "all byte strings, indexes (full 64-bit range), counts and code points, for every function of the public headers",
 "Tests use well-formed text with small indexes; hostile bytes, extreme indexes and truncated sequences are not sampled, and out-of-bounds reads often go unnoticed.",
 [A, AU, D, UN, ES, N, CC, CL, U32, CS], [("all public functions", "include/Ystring/*.hpp")])
prop("C06", "UTF-8/UTF-32 conversion round-trips",
 "to_utf32(from_utf32(u)) == u for every sequence u of code points up to U+10FFFF, and from_utf32(to_utf32(s)) == s for every s in shortest-form UTF-8. to_utf32(s) is the sequence of code points that forward decoding yields, and throws YstringException exactly when s contains a malformed sequence.",
 "all code point sequences and all byte strings",
 "Tests convert one string each way.",
 [U32, D, E], [("to_utf32", U32), ("from_utf32", U32)])
prop("C07", "Code point counting and positions agree from both ends",
 "For every valid string with n code points, count_codepoints is n; get_codepoint_pos(s,i) is the byte offset of code point i for 0<=i<=n (i==n gives the size), get_codepoint_pos(s,-k) equals get_codepoint_pos(s,n-k) for 1<=k<=n, and any other index, up to the extremes of the index type, gives npos. get_codepoint(s,i) returns the code point and byte range of code point i (or n+i for negative i), and an empty range with INVALID_CHAR for any index out of range.",
 "all valid strings and all 64-bit indexes",
 "Tests use one 12-code-point string and indexes in [-13,13].",
 [A, D], [("count_codepoints", A), ("get_codepoint", A), ("get_codepoint_pos", A)])
prop("C08", "Code point slicing and editing act on exactly the named code points",
 "For every valid string with n code points, get_codepoint_substring(s,a,b) is the code points from position a up to but not including b, where a negative index counts from the end, indexes beyond either end are capped to that end, and the result is empty when b does not come after a. replace_codepoints(s,a,b,r) is the text before that slice, then r, then the text after it; insert_codepoint(s) at position i in [-n,n] puts the new text there leaving everything else unchanged, and throws YstringException for any other position when there is text to insert.",
 "all valid strings, all pairs of 64-bit indexes of any sign, all inserted text",
 "Mixed-sign and out-of-range index pairs form a large case space of which the tests sample a dozen.",
 [AU, A], [("get_codepoint_substring_range / get_capped_codepoint_pos", AU), ("insert_at_offset / replace_subrange", AU)])
prop("C09", "Character segmentation is the same from either end and reverse respects it",
 "In every valid string the characters - a code point plus all combining marks (general category M) that follow it - found by get_next_char_range from the start are the same as those found by get_prev_char_range from the end, cover the string without gaps, and count_chars is their number; get_char_pos and get_char_range agree with that segmentation for every index of either sign and report npos or an empty range outside it. reverse(s) is exactly those characters in reverse order, each one's bytes intact.",
 "all valid strings and all 64-bit indexes",
 "Which code points are marks and where they fall (first, last, several in a row, multi-byte) is unbounded; tests use a handful of strings.",
 [A], [("get_next_char_range / get_prev_char_range", A), ("get_char_pos / get_char_range", A), ("reverse", A)])
prop("C10", "Character slicing and editing act on exactly the named characters",
 "For every valid string with n characters (code point plus following combining marks), get_char_substring(s,a,b) is the characters from position a up to but not including b, where a negative index counts from the end, indexes beyond either end are capped to that end, and the result is empty when b does not come after a. replace_chars(s,a,b,r) is the text before that slice, then r, then the text after it; insert_char(s) at position i in [-n,n] puts the new text there leaving everything else unchanged, and throws YstringException for any other position when there is text to insert.",
 "all valid strings, all pairs of 64-bit indexes of any sign, all inserted text",
 "Tests use three index pairs, no mixed signs, and few combining marks.",
 [AU, A], [("get_char_substring_range / get_capped_char_pos", AU), ("insert_at_offset / replace_subrange", AU)])
prop("C11", "Substring search finds exactly the first or last occurrence",
 "For every string, non-empty needle and byte offset within the string, find_first returns the leftmost occurrence that starts at or after the offset and find_last the rightmost occurrence that ends at or before the offset (anything beyond the size counts as the size), each as the exact byte range, and they return an empty range exactly when there is no such occurrence. starts_with and ends_with are true exactly when the needle is a byte prefix or suffix of the string.",
 "all byte strings, needles and offsets",
 "Overlapping and partial matches, needles as long as or longer than the string, and offsets at the edges are not sampled.",
 [A, AUH], [("find_first / find_last", A), ("search_last", AUH), ("starts_with / ends_with", A)])
prop("C12", "Code point search returns exactly the first or last match",
 "For every valid string and offset on a code point boundary, find_first_of/find_first_where return the first code point at or after the offset, and find_last_of/find_last_where the last code point ending at or before the offset, that is in the given characters or CodepointSet, or satisfies the predicate, with its exact byte range and value; when there is none they return an empty range and INVALID_CHAR. The case-insensitive variants do the same comparing simple upper case, and contains(s,c) is true exactly when c is one of the code points of s.",
 "all valid strings, character collections, predicates and offsets",
 "Tests search three strings; multi-byte neighbours, matches at both ends and offsets are not combined.",
 [AH, A, CS], [("find_first_where / find_last_where", AH), ("find_first_of / find_last_of", A), ("contains(u32string_view)", CS)])
prop("C13", "Replacement replaces exactly the requested occurrences",
 "For every string, needle, replacement and limit n, replace(s,from,to,n) with n>=0 replaces the first n non-overlapping occurrences scanning left to right, with n<0 the last |n| non-overlapping occurrences scanning right to left, and leaves every other byte unchanged; it terminates for every input and an empty needle replaces nothing. replace_codepoint does the same for the encodings of two code points and throws YstringException when either is above U+10FFFF.",
 "all byte strings, needles, replacements and 64-bit limits of either sign",
 "Adjacent and overlapping occurrences, limits at the exact count, empty and self-containing replacements are not sampled.",
 [A, AU, AUH], [("replace / replace_codepoint", A), ("find_last_n / search_last", AU)])
prop("C14", "Splitting loses nothing and join undoes it",
 "For every string and non-empty separator, split yields the pieces between the leftmost non-overlapping separators, so joining them with the separator gives back the string; with max_splits=k>=1 only the first k pieces are split off and the rest of the string is the last piece unchanged, with max_splits=0 the whole string is the only piece, and ignore_empty drops exactly the empty pieces without counting them. The same holds for splitting at any of a set of characters, and a TokenIterator's part, token and remainder are always consecutive pieces of the text it has left.",
 "all strings, separators, separator sets and split parameters",
 "Separators at the ends, adjacent separators, limits reached exactly and ignore_empty interact; tests sample ten combinations.",
 [AH, A, TI], [("split_where", AH), ("TokenIterator", TI), ("split", A), ("join", AH)])
prop("C15", "Newlines are recognised and split as units",
 "For every valid string find_first_newline and find_last_newline return the exact range of the first or last newline - LF, VT, FF, CR, CR LF as a single unit, U+0085, U+2028 or U+2029 - at or after (ending at or before) the offset, and an empty range exactly when there is none. split_lines yields exactly the text between those newlines, honours max_splits and ignore_empty like split, and no line contains a newline character; is_newline is true for exactly those seven code points.",
 "all valid strings, offsets on code point boundaries and split parameters",
 "CR, LF and multi-byte newlines at string ends, doubled and reversed (LF CR) give many cases; tests sample a few.",
 [A, AH, "include/Ystring/CodepointPredicates.hpp"], [("find_first_newline / find_last_newline", A), ("split_lines", A), ("is_newline", "include/Ystring/CodepointPredicates.hpp")])
prop("C16", "Trimming removes exactly the leading and trailing characters asked for",
 "For every valid string, trim_start (trim_end) returns the longest suffix (prefix) of it that does not start (end) with one of the given characters, trim both; the results are views into the argument string, empty when every character is trimmed. The predicate versions do the same for any predicate, and trimming again changes nothing.",
 "all valid strings and all trim character collections and predicates",
 "Tests trim five strings with one collection.",
 [AH, A], [("trim_start_where / trim_end_where / trim_where", AH), ("trim / trim_start / trim_end", A)])
prop("C17", "Case mapping of every code point matches the Unicode data",
 "For every char32_t value, to_upper, to_lower and to_title return the simple upper, lower and title case mapping of the bundled UnicodeData file, and the code point itself where the file gives none or the value is not a code point, whatever was asked before. Each of them is idempotent.",
 "all 2^32 char32_t values",
 "Tests check about ten Latin letters; the tables hold some 2,900 mappings in compressed bit-mask form.",
 [CC, "src/Ystring/LowerCaseTables.hpp", "src/Ystring/UpperCaseTables.hpp", "src/Ystring/TitleCaseTables.hpp", "src/Ystring/CharMappingTypes.hpp"],
 [("convert / find_in_compact_mapping / find_in_mapping", CC), ("CompactCharMapping::get", "src/Ystring/CharMappingTypes.hpp")])
prop("C18", "String case conversion maps each code point in place",
 "For every valid string, to_lower(s) is the concatenation of the lower case mappings of its code points, and to_upper(s) that of the upper case mappings except that U+00DF becomes \"SS\". to_title(s) changes only letters: the first letter of each maximal run of letters becomes its title case (U+00DF becomes \"Ss\") and the others lower case; each of them throws YstringException exactly when s is malformed or contains a value above U+10FFFF.",
 "all strings",
 "Tests convert six strings; the letter/non-letter state machine and length-changing mappings are not explored.",
 [CC], [("to_lower / to_upper / to_title (string)", CC)])
prop("C19", "Case-insensitive comparison is a consistent ordering",
 "On valid strings case_insensitive::compare orders strings by their sequences of upper-cased code points, a proper prefix coming first; equal(a,b) holds exactly when compare(a,b)==0 and less(a,b) exactly when compare(a,b)<0, so compare is antisymmetric and transitive. case_insensitive starts_with and ends_with are true exactly when the upper-cased code points of the second string are a prefix or suffix of those of the first, and the code-point functions case_insensitive_compare, _equal and _less agree with each other.",
 "all pairs and triples of valid strings, all pairs of code points",
 "Order laws relate every pair and triple of strings; tests compare three pairs.",
 [A, CI, AUH], [("case_insensitive::compare/equal/less", A), ("next_/prev_case_insensitive_mismatch", AUH), ("case_insensitive_compare/equal/less", CI)])
prop("C20", "Case-insensitive search, replace and split find every folded match",
 "For valid strings, case_insensitive::find_first (find_last) returns the leftmost (rightmost) range of code points within the offset bound whose upper-cased code points equal those of the non-empty needle, with its exact byte range even where the matched text has a different byte length than the needle, and an empty range when there is none. case_insensitive::replace and split act on exactly those non-overlapping matches with the same limits, direction and parameters as the case-sensitive versions.",
 "all valid strings, needles, replacements, limits and offsets",
 "Tests use three strings; matches of different byte length, partial matches and limits are not sampled.",
 [A, AUH], [("case_insensitive::find_first/find_last/replace/split", A)])
prop("C21", "Character classes of every code point match the Unicode data",
 "For every code point get_char_class returns the General_Category of the bundled UnicodeData file (including the First/Last ranges), UNASSIGNED for code points not in it and for values above U+10FFFF, whatever was asked before. Every classification predicate (is_letter, is_mark, is_upper, is_whitespace, is_hex_digit and the others) is true exactly for the categories or characters it documents.",
 "all 2^32 char32_t values",
 "Tests check ten code points; the table has some 3,300 packed ranges with three different packings.",
 [CL, CLT, "include/Ystring/CodepointPredicates.hpp"], [("get_char_class / decode_char_class", CL), ("predicates", "include/Ystring/CodepointPredicates.hpp")])
prop("C22", "CodepointSet contains exactly what was added",
 "After any sequence of add_range (first<=last), add_codepoint and add_codepoints calls with code points, contains(c) is true exactly when c was added individually or lies in an added range, inverted when negated is set. Ignoring negation, case_insensitive_contains(c) is true for every c that is contained and for every c whose upper case equals that of an individually added code point, and when code points were only added individually (or nothing was) for no other c; negated inverts it. The functions contains and case_insensitive_contains of a sequence of code points are true exactly when one of its elements is c, or has the same upper case as c.",
 "all histories of additions and all queried code points",
 "The merging of adjacent additions depends on the whole history of additions; no test covers CodepointSet.",
 [CS, "include/Ystring/CodepointSet.hpp"], [("add_range/add_codepoint/add_codepoints", CS), ("contains / case_insensitive_contains", CS)], over=("inputs", "histories"),
 state=[("CodepointSet::ranges", "list of inclusive ranges; adjacent code points extend the last one", "include/Ystring/CodepointSet.hpp")])
prop("C23", "JSON escaping is complete, minimal and reversible",
 "For every byte string s, escape_json(s) contains no byte below 0x20, no unescaped quote and no backslash that does not start a valid JSON escape; it equals s with exactly the quotes, backslashes and control bytes escaped, and unescape(escape_json(s)) == s. find_first_escapable_char returns the exact first such byte at or after the offset, has_escapable_chars is true exactly when escape_json(s) differs from s.",
 "all byte strings and offsets",
 "Tests escape one string with two escapable characters.",
 [ES, UN], [("find_first_escapable_char / escape_json", ES)])
prop("C24", "unescape decodes every escape sequence and never grows or overruns",
 "For every byte string, unescape either throws YstringException because some escape is incomplete or malformed, or returns the string with each escape - \\a \\b \\f \\n \\r \\t \\v, \\x or \\X with two or more hex digits, \\u with 4 and \\U with 8 hex digits, \\ with 1-3 octal digits, \\u surrogate pairs combined, and \\ before any other ASCII character - replaced by the UTF-8 encoding of its value (nothing when it exceeds U+10FFFF) and every other byte unchanged. The result is never longer than the input, the in-place version writes only inside its buffer and gives the same result, and find_first_escaped_char returns exactly the first escape sequence and has_escaped_chars tells whether there is one.",
 "all byte strings, in particular escapes truncated by the end of the string",
 "Tests unescape five strings; truncated escapes, digit runs of every length and surrogate mixes are not sampled.",
 [UN], [("find_first_escaped_char", UN), ("unescape (both)", UN), ("parse_utf16", UN)])
prop("C25", "unescape_next steps through text one character at a time",
 "For every view, unescape_next returns the next character - decoded from UTF-8, or the value of the escape (\\x or \\X with 1-8 hex digits, \\u with 4 including surrogate pairs, \\U with 8, 1-3 octal digits, the single-letter escapes, otherwise the escaped character itself) - removes exactly the bytes it used, skips backslash-newline pairs before it, and sets did_unescape accordingly; it returns nullopt exactly when nothing is left. When it throws YstringException the next character or escape is malformed and the view still starts at it.",
 "all byte strings",
 "Tests step through eight strings.",
 [UN, D], [("unescape_next", UN), ("extract_hex_char / extract_utf16_char / extract_oct_char", UN)])
prop("C26", "Decomposition is complete for every code point",
 "For every code point, decompose returns the full recursive expansion of the two-part canonical decompositions in the bundled UnicodeData file (the code point itself when it has none) and terminates. to_decomposed(s) of a valid string is the concatenation of the decompositions of its code points, with undecomposable code points copied byte for byte, and is idempotent.",
 "all code points and all valid strings",
 "Tests decompose two code points; there are about 1,000 entries with chains up to four long.",
 [N, NT], [("find_decomposed / decompose_char / get_decomposed_size", N), ("to_decomposed", N)])
prop("C27", "Composition merges exactly the composable pairs and loses nothing",
 "For every valid string, to_composed(s) is the left-to-right result of replacing a code point followed by one it has a two-part canonical composition with in the bundled UnicodeData file by the composed code point (repeatedly), with all other text kept byte for byte. Hence to_decomposed(to_composed(s)) has the same code points as to_decomposed(s), and to_composed(to_decomposed(c)) == c for every single code point c that has a two-part decomposition.",
 "all valid strings, all pairs of code points",
 "Tests compose three strings; text after a composition, composition at the ends of the string and bases above U+0FFF are not covered.",
 [N, NT], [("find_composed", N), ("to_composed", N)])
prop("C28", "Stream output of ranges and code point sets is exact",
 "Streaming a CodepointSet writes '[' ('[^' when negated), then every range as its code point or as first-last in UTF-8, then ']'. Streaming a Subrange writes its offset and length in decimal as {offset: O, length: L}.",
 "all sets, all ranges",
 "No test covers streaming.",
 [CS, "src/Ystring/Subrange.cpp"], [("operator<<", CS), ("operator<<", "src/Ystring/Subrange.cpp")])
prop("C29", "Left-out arguments and small helpers mean what they say",
 "Without the optional arguments, searching forwards covers the whole string from its start and searching backwards all of it from its end, replacing replaces every occurrence, splitting splits everywhere and keeps empty pieces (IGNORE_EMPTY only drops those), substrings go on to the end, joining puts nothing between the pieces, trimming removes exactly spaces, tabs, line feeds and carriage returns, repairing uses U+FFFD, and unescape_next works alike without its flag; find_*_where with a predicate, find_*_of with code points and with a CodepointSet of the same code points agree, as do split and split_where. Subrange(offset,length) and Subrange(begin,first,last) describe exactly that range through start, end, bool, == and !=, and to_string_view/to_u8string_view keep the same bytes.",
 "all byte strings (valid ones for functions of code points), code points, indexes and ranges",
 "Tests call each function with a default a few times on one string; that the defaults are neutral is a claim about every input.",
 [AH, A, SR, UN, ES], [("default arguments", AH), ("COMMON_WHITESPACE / ASCII_WHITESPACE / IGNORE_EMPTY", AH), ("Subrange", SR)])
prop("C30", "What is made of valid UTF-8 is valid UTF-8",
 "When every string argument is well-formed UTF-8 in shortest form with no value above U+10FFFF, every string that any function returns or leaves in its argument - by appending, inserting, replacing, reversing, trimming, slicing, splitting, joining, changing case, escaping, unescaping, composing, decomposing, repairing or converting - is so too, and every range found in it cuts it between code points, for all code points, indexes and limits.",
 "all well-formed strings, all code points, all 64-bit indexes and limits, for every function that returns text or a range",
 "Tests compare a few results; that no combination of bytes, indexes and limits ever cuts or garbles a code point is a claim about all of them.",
 [A, AH, CC, ES, UN, N, U32, E], [("all functions that build or slice text", "include/Ystring/*.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
