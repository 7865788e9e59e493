#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run after editing)."""
import json, os
H='include/Ystring/'; S='src/Ystring/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

p('C01','UTF-8 decoding is structural, exact and symmetric in both directions',
 'Decoding one code point forwards from any position of any byte string succeeds exactly when the bytes there form a lead byte (0xxxxxxx, 110xxxxx, 1110xxxx, 11110xxx) followed by 0, 1, 2 or 3 continuation bytes, then returns the payload bits and advances over exactly those bytes; decoding backwards from the end of such a sequence (with exactly that many continuation bytes before the cursor) returns the same value and moves back over the same bytes. '
 'In every other case the invalid marker is returned (or YstringException is thrown by the throwing and pop variants) and the cursor or view is left where it was. '
 'An empty range is reported as end of input, not as an error, by the throwing and pop variants.',
 ['inputs'],'every byte string and every cursor position in it, forwards and backwards',
 'The tests decode a few dozen literals; correctness must hold for every lead/continuation combination at every truncation point, with arbitrary neighbours on both sides.',
 [H+'DecodeUtf8.hpp'],[('decode_next/decode_prev/safe_decode_*/pop_*',H+'DecodeUtf8.hpp')],['decode_next','decode_prev','safe_decode_next','safe_decode_prev','pop_utf8_codepoint','pop_last_utf8_codepoint'])

p('C02','Encoding and UTF-32 conversion round-trip every code point and string',
 'Every code point from 0 to U+10FFFF is encoded as its unique shortest 1-4 byte UTF-8 form by append and UTF-32 to UTF-8 conversion, and converting back returns the original; conversion of strings is the concatenation of the conversions of their code points in order. '
 'UTF-8 to UTF-32 conversion of any byte string either yields exactly its structurally decoded code points or throws YstringException when some position cannot be decoded. '
 'Appending a value above U+10FFFF throws YstringException and leaves the target string unchanged.',
 ['inputs'],'every char32_t value and every UTF-32 / UTF-8 string',
 'The tests convert two short literals; the guarantee covers 1.1 million code points and every concatenation of them.',
 [S+'EncodeUtf8.hpp',S+'Utf32.cpp',S+'Algorithms.cpp',H+'Utf32.hpp'],[('encode_utf8/get_utf8_encoded_length',S+'EncodeUtf8.hpp'),('from_utf32/to_utf32',S+'Utf32.cpp'),('append',S+'Algorithms.cpp')],['append','from_utf32','to_utf32'])

p('C03','Validation and repair of UTF-8 agree and repair keeps all valid text',
 'A byte string is reported valid exactly when it is a concatenation of structurally decodable sequences. '
 'Replacing invalid UTF-8 with an encodable replacement character always yields a valid string, returns valid strings unchanged (so it is idempotent), keeps every decodable sequence in order and substitutes exactly one replacement per undecodable unit, where a unit is a lead byte with the continuation bytes it can claim, or a stray continuation or invalid lead byte with all continuation bytes directly after it. '
 'The in-place form gives the same result as the copying form.',
 ['inputs'],'every byte string, every replacement code point up to U+10FFFF',
 'Tests repair one string with one bad sequence; the guarantee is about every arrangement of truncated, stray and overlong-run bytes between valid text.',
 [S+'Algorithms.cpp',H+'DecodeUtf8.hpp'],[('is_valid_utf8',S+'Algorithms.cpp'),('replace_invalid_utf8',S+'Algorithms.cpp'),('skip_next',H+'DecodeUtf8.hpp')],['is_valid_utf8','replace_invalid_utf8'])

p('C04','Skipping code points partitions any byte string identically both ways',
 'Repeatedly skipping one code point forwards over any byte string, valid or not, terminates, always makes progress, never leaves the string, and cuts it into consecutive units; skipping backwards from the end produces exactly the same cuts. '
 'On valid strings the units are exactly the encoded code points, and removing the first or last code point from a view removes exactly the first or last unit and reports whether there was one. '
 'The code point count of a valid string equals the number of units, and counting an invalid string throws YstringException.',
 ['inputs'],'every byte string',
 'Tests skip over about twenty literals one step at a time, none compares the two directions.',
 [H+'DecodeUtf8.hpp',S+'Algorithms.cpp'],[('skip_next/skip_prev/remove_*',H+'DecodeUtf8.hpp'),('count_codepoints',S+'Algorithms.cpp')],['skip_next','skip_prev','remove_utf8_codepoint','remove_last_utf8_codepoint','count_codepoints'])

p('C05','Character classes and predicates match the Unicode 16 database everywhere',
 'For every code point up to U+10FFFF the reported character class is the Unicode 16.0 General_Category (including code points inside First/Last ranges), and it is "unassigned" for code points absent from the database and for every value above U+10FFFF. '
 'Every predicate (letter, alphanumeric, cased, lower, upper, mark, number, punctuation, separator, symbol, control, format, surrogate, graphical, visible) is the membership test of the categories it names. '
 'Newline, whitespace and hex-digit predicates hold exactly for LF, VT, FF, CR, U+0085, U+2028, U+2029; for those plus tab, space and all separators; and for 0-9, A-F, a-f.',
 ['inputs'],'every char32_t value',
 'Tests look up ten code points of 1 114 112 in a run-length/bit-packed table searched by binary search.',
 [S+'CharClass.cpp',S+'CharClassTables.hpp',H+'CodepointPredicates.hpp',H+'CharClass.hpp'],[('get_char_class over packed ranges',S+'CharClass.cpp'),('COMPLETE_CHAR_CLASSES',S+'CharClassTables.hpp'),('is_*',H+'CodepointPredicates.hpp')],['get_char_class','is_*'])

p('C06','Case conversion matches the Unicode simple mappings for all text',
 'For every code point the upper, lower and title case conversions return the Unicode 16.0 simple mapping, or the code point itself if it has none or is not a code point. '
 'Upper and lower casing a valid string maps it code point by code point in order, except that upper casing turns U+00DF into "SS"; title casing converts the first code point of every maximal run of letters to title case (U+00DF to "Ss") and the following ones to lower case and leaves everything else unchanged. '
 'Invalid UTF-8 is rejected with YstringException.',
 ['inputs'],'every char32_t value and every string',
 'Tests convert about a dozen letters and six strings; mappings live in compressed tables of about 2 900 mappings.',
 [S+'ConvertCase.cpp',S+'CharMappingTypes.hpp',S+'UpperCaseTables.hpp',S+'LowerCaseTables.hpp',S+'TitleCaseTables.hpp'],[('convert via compact + sparse tables',S+'ConvertCase.cpp'),('CompactCharMapping::get',S+'CharMappingTypes.hpp')],['to_upper','to_lower','to_title'])

p('C07','Decomposition yields the full canonical pair decomposition and terminates',
 'Decomposing a code point returns the result of repeatedly replacing its first element by its Unicode 16.0 canonical decomposition into two code points until none applies; code points without such a decomposition are returned unchanged. '
 'Decomposing a valid string is the in-order concatenation of the decompositions of its code points, so it is idempotent, and it terminates for every string. '
 'Invalid UTF-8 is rejected with YstringException.',
 ['inputs'],'every char32_t value, every string (any mix and order of code points with 1-4 element decompositions)',
 'Tests decompose two characters; 1 000+ characters decompose, some into four elements, and buffer growth depends on what came before in the string.',
 [S+'Normalize.cpp',S+'NormalizationTables.hpp',H+'Normalize.hpp'],[('find_decomposed/decompose_char/get_decomposed_size',S+'Normalize.cpp'),('TO_DECOMPOSED',S+'NormalizationTables.hpp')],['decompose','to_decomposed'])

p('C08','Composition inverts decomposition and never loses or invents text',
 'Composing a valid string is the left-to-right fold that repeatedly merges the current code point with the code point directly following it whenever the pair is exactly the Unicode 16.0 two-element canonical decomposition of some code point, and copies everything else unchanged. '
 'Consequently text without such pairs is returned byte for byte, composing then decomposing a string equals decomposing it, and composing the decomposition of any single code point gives back that code point. '
 'Invalid UTF-8 is rejected with YstringException.',
 ['inputs'],'every string: any position, repetition and adjacency of composable pairs, any planes',
 'Tests compose two strings; the scan keeps four cursors whose interaction depends on what precedes and follows each composed character.',
 [S+'Normalize.cpp',S+'NormalizationTables.hpp'],[('to_composed cursor loop',S+'Normalize.cpp'),('find_composed',S+'Normalize.cpp'),('TO_COMPOSED',S+'NormalizationTables.hpp')],['to_composed'])

p('C09','Characters partition text consistently in both directions',
 'In valid text a character is one code point together with all combining marks directly following it; counting characters, stepping to the next character and stepping to the previous character all see this same partition, and its ranges are contiguous and cover the string. '
 'The offset of character n (or of the n-th from the end when negative) and its range agree with that partition for every n, with npos or an empty range exactly when there is no such character (n equal to the count gives the end offset). '
 'Reversing concatenates the characters in reverse order, each byte for byte intact; text that cannot be decoded where it must be read is rejected with YstringException.',
 ['inputs'],'every valid string (including leading marks and long mark runs), every index in the ptrdiff_t range, every character boundary offset',
 'Tests use one-mark strings and a handful of indexes; forward and backward scanners are separate code.',
 [S+'Algorithms.cpp'],[('get_next_char_range/get_prev_char_range',S+'Algorithms.cpp'),('get_char_pos/get_char_range/count_chars/reverse',S+'Algorithms.cpp')],['count_chars','get_next_char_range','get_prev_char_range','get_char_pos','get_char_range','reverse'])

p('C10','Code point indexing agrees with the decoded string for every index',
 'For valid text with n code points, the code point at index i (0 <= i < n) and at index i-n is the i-th decoded code point together with its exact byte range; any other index gives an empty range and the invalid marker. '
 'The byte offset of index i is the sum of the encoded lengths before it for 0 <= i <= n and -n <= i < 0, and npos for every other index, however large its magnitude. '
 'Nothing else about the string influences the answer.',
 ['inputs'],'every valid string, every index in the whole ptrdiff_t range',
 'Tests query a dozen indexes in one string.',
 [S+'Algorithms.cpp'],[('get_codepoint/get_codepoint_pos',S+'Algorithms.cpp')],['get_codepoint','get_codepoint_pos'])

p('C11','Substrings follow slice semantics for every pair of indexes',
 'The character (code point) substring between a start and an end index equals the concatenation of the characters (code points) from start inclusive to end exclusive, where negative indexes count from the end, indexes beyond either end are clamped, and the result is empty if the end is not after the start. '
 'This holds for every combination of signs and magnitudes, with a missing end meaning the end of the string. '
 'The returned view lies inside the given string.',
 ['inputs'],'every valid string, every pair of indexes in the ptrdiff_t range',
 'Tests try fifteen index pairs, almost all non-negative; the code has a separate branch for each of the four sign combinations in each of two variants.',
 [S+'AlgorithmUtilities.cpp',S+'Algorithms.cpp'],[('get_char_substring_range/get_codepoint_substring_range',S+'AlgorithmUtilities.cpp')],['get_char_substring','get_codepoint_substring'])

p('C12','Insertion and range replacement splice exactly at the indexed position',
 'Inserting a code point or string at a character or code point index gives the text before that index, the insertion and the rest, for every index addressing a position of the string (from the start or, if negative, from the end); any other index throws YstringException unless the inserted string is empty. '
 'Replacing the range between two character or code point indexes gives the text before the range, the replacement and the text after it, with the range determined exactly as for the corresponding substring. This holds for invalid UTF-8 too, where the position or range is the one that the position and substring functions report, and there is an exception if they throw. '
 'No byte outside the range is changed, and inserting a value above U+10FFFF throws YstringException.',
 ['inputs'],'every string, every index or index pair, every insertion',
 'Tests insert at about five positions per function and replace three ranges.',
 [S+'AlgorithmUtilities.cpp',S+'Algorithms.cpp'],[('insert_at_offset/replace_subrange',S+'AlgorithmUtilities.cpp')],['insert_char','insert_chars','insert_codepoint','insert_codepoints','replace_chars','replace_codepoints'])

p('C13','Literal substring search finds exactly the first or last occurrence',
 'Searching for a non-empty substring from an offset returns the lowest match starting at or after the offset, and searching backwards returns the highest match ending at or before the offset (capped to the length), with the exact range of the match; if there is none, or the substring is empty, the result is false. '
 'Prefix and suffix tests are true exactly when the string begins or ends with the given bytes. '
 'Containment of a code point is true exactly when a decoded code point equals it, and throws YstringException if invalid UTF-8 is met before a match.',
 ['inputs'],'every haystack, needle (including self-overlapping and empty ones) and offset',
 'Tests use one haystack without overlaps and five needles.',
 [S+'Algorithms.cpp',S+'AlgorithmUtilities.hpp'],[('find_first/find_last/starts_with/ends_with/contains',S+'Algorithms.cpp'),('search_last',S+'AlgorithmUtilities.hpp')],['find_first','find_last','starts_with','ends_with','contains'])

p('C14','Searching by character set or predicate finds exactly the first/last hit',
 'Forward search for a code point in a list, a code point set or satisfying a predicate returns the first code point at or after the offset that qualifies, backward search the last one that ends at or before the offset, each with its exact byte range and value; with no hit the range is empty and the code point is the invalid marker. '
 'A code point set contains exactly the code points in the union of the ranges and code points added to it, complemented if negated, and contains one case-insensitively exactly when some member of the union has the same upper case (complemented if negated). '
 'Invalid UTF-8 met before a hit throws YstringException.',
 ['inputs','histories'],'every string, offset, list, every sequence of additions to a set',
 'Tests search four strings for one list; sets are never tested, nor are offsets for backward search.',
 [H+'Algorithms.hpp',S+'Algorithms.cpp',S+'Char32Set.cpp',H+'CodepointSet.hpp'],[('find_first_where/find_last_where',H+'Algorithms.hpp'),('CodepointSet',S+'Char32Set.cpp')],['find_first_of','find_last_of','find_first_where','find_last_where','CodepointSet'])

p('C15','Newline search and line splitting treat every newline form exactly once',
 'The first (last) newline at or after (ending at or before) an offset is the first (last) occurrence of LF, VT, FF, CR, U+0085, U+2028 or U+2029, where an adjacent CR LF pair counts as one two-byte newline unless the search offset separates it. '
 'No other code point is ever treated as a newline, whatever lies in memory around the library. '
 'Splitting into lines cuts at exactly these newlines, so lines never contain a newline character and lines and newlines interleaved reproduce the text.',
 ['inputs'],'every valid string and code point boundary offset, every split parameter',
 'Tests try about ten strings; most newline forms and all combinations of adjacent ones are untested.',
 [S+'Algorithms.cpp',H+'Algorithms.hpp'],[('find_first_newline/find_last_newline/split_lines',S+'Algorithms.cpp'),('NEWLINES',S+'Algorithms.cpp')],['find_first_newline','find_last_newline','split_lines'])

p('C16','Splitting and joining are exact inverses and honour every limit',
 'Splitting cuts a string at successive non-overlapping separators (a non-empty substring, any one code point of a list, or whatever a finder function reports), left to right; the parts and separators interleaved reproduce the string, parts contain no separator match, and joining the parts of a substring split with that separator gives back the string. '
 'With a limit of n (including 0) at most n parts are cut off and the uncut remainder is the last part, so no text is dropped; with empty parts ignored the result is the non-empty parts, the limit counting only those kept. '
 'The token iterator reports for each step exactly the part before the token, the token itself and the text after it.',
 ['inputs'],'every string, separator, finder, limit and flag; every list of strings to join',
 'Tests split three strings with a few limits; limit 0, the token accessor and round trips are untested.',
 [H+'Algorithms.hpp',H+'TokenIterator.hpp',S+'Algorithms.cpp'],[('split_where',H+'Algorithms.hpp'),('TokenIterator',H+'TokenIterator.hpp'),('split',S+'Algorithms.cpp'),('join',H+'Algorithms.hpp')],['split','split_where','join','TokenIterator'],
 [('m_str/m_token','rest of the string and the current token in it',H+'TokenIterator.hpp')])

p('C17','Trimming removes exactly the maximal run of trim characters at each end',
 'Trimming the start (end, both) with a list or predicate returns the view of the string without its longest prefix (suffix, both) consisting only of qualifying code points, and nothing else is removed. '
 'The default trim set is exactly space, tab, LF and CR, and the published whitespace constants contain exactly the characters they list when used as trim or search sets. '
 'Trimming is idempotent, the result lies inside the input, and undecodable text that must be examined throws YstringException.',
 ['inputs'],'every valid string, every trim list or predicate',
 'Tests trim five strings with one explicit list and never use the default.',
 [H+'Algorithms.hpp',S+'Algorithms.cpp'],[('trim_*_where',H+'Algorithms.hpp'),('COMMON_WHITESPACE/ASCII_WHITESPACE',H+'Algorithms.hpp')],['trim','trim_start','trim_end','trim_where','trim_start_where','trim_end_where'])

p('C18','Replacing text substitutes exactly the requested occurrences',
 'Replacing a non-empty substring with a positive limit n replaces the first n non-overlapping occurrences found scanning from the start, with a negative limit -n the first n found scanning from the end, and all bytes outside them are kept; without a limit all occurrences found from the start are replaced. '
 'Replacing an empty substring returns the string unchanged, and every call terminates for every limit. '
 'Replacing a code point equals replacing its encoding by the other code point\'s encoding, and a value above U+10FFFF throws YstringException.',
 ['inputs'],'every string, needle (self-overlapping, empty), replacement (possibly containing the needle) and non-zero limit in the ptrdiff_t range',
 'Tests make three calls per function with limits absent, 1 and -2.',
 [S+'Algorithms.cpp',S+'AlgorithmUtilities.cpp'],[('replace/replace_codepoint',S+'Algorithms.cpp'),('find_last_n',S+'AlgorithmUtilities.cpp')],['replace','replace_codepoint'])

p('C19','Case-insensitive comparison is a total order on upper-cased code points',
 'Comparing two valid strings case-insensitively has the sign of the lexicographic comparison of their code points each mapped to its simple upper case, a proper prefix being less. '
 'Equality, less-than and the three-way comparison always agree with one another, so equality is an equivalence and less-than a strict weak order; a string equals itself with any letters upper cased by simple mapping. '
 'The single code point comparisons are the same order on single code points, and invalid UTF-8 that is reached throws YstringException.',
 ['inputs'],'every pair (and triple) of strings and of code points',
 'Tests compare three pairs.',
 [H+'CaseInsensitive.hpp',S+'Algorithms.cpp'],[('case_insensitive_compare/equal/less',H+'CaseInsensitive.hpp'),('case_insensitive::compare/equal/less',S+'Algorithms.cpp')],['case_insensitive::compare','case_insensitive::equal','case_insensitive::less','case_insensitive_compare','CaseInsensitiveLess'])

p('C20','Case-insensitive search, replace and split mirror the exact versions',
 'Case-insensitive find (first and last, with offset), prefix and suffix tests, search for one of a list or set of code points, replace (with positive or negative limits) and split behave as their case-sensitive counterparts would if two code points matched exactly when their simple upper case is equal. '
 'Reported ranges and replaced or split-out text refer to the original string, whose matched part may have a different byte length than the needle, and unmatched text keeps its case. '
 'An empty needle is never found, and undecodable text that is examined throws YstringException.',
 ['inputs'],'every valid string, needle, code point boundary offset, list, limit',
 'Tests use a handful of Latin strings in which both cases have equal byte length.',
 [S+'Algorithms.cpp',S+'AlgorithmUtilities.hpp',S+'Char32Set.cpp'],[('case_insensitive::*',S+'Algorithms.cpp'),('next/prev_case_insensitive_mismatch',S+'AlgorithmUtilities.hpp')],['case_insensitive::find_first','case_insensitive::find_last','case_insensitive::starts_with','case_insensitive::ends_with','case_insensitive::find_first_of','case_insensitive::find_last_of','case_insensitive::replace','case_insensitive::split'])

p('C21','JSON escaping is complete, minimal and reversible',
 'The JSON-escaped form of any byte string contains no raw control character below U+0020 and no unescaped quotation mark, and decoding it as the contents of a JSON string gives back the original bytes; so does the library\'s own unescape. '
 'Only control characters below U+0020, quotation mark and backslash are altered, using the short escapes \\b \\f \\n \\r \\t \\" \\\\ where they exist and \\u00XX otherwise. '
 'The search for escapable characters finds exactly the first of these at or after the offset, and the yes/no query is true exactly when escaping would change the string.',
 ['inputs'],'every byte string, every offset within it',
 'One test escapes one string with four of the 34 special characters.',
 [S+'Escape.cpp',H+'Escape.hpp'],[('escape_json/find_first_escapable_char',S+'Escape.cpp')],['escape_json','has_escapable_chars','find_first_escapable_char'])

p('C22','Unescaping decodes every escape and rejects malformed ones safely',
 'Unescaping copies everything outside escape sequences unchanged and replaces each sequence by what it denotes: \\a \\b \\f \\n \\r \\t \\v, one to three octal digits, \\x or \\X with two or more hex digits (all that follow), \\u with four, \\U with eight, a \\u high-low surrogate pair as one code point, and any other ASCII character after a backslash as itself. '
 'An incomplete escape, too few digits, a backslash before a non-ASCII byte, or a hex value above U+10FFFF throws YstringException, and bytes outside the string are never read or written and the result is never longer than the input. '
 'The escape finder reports the exact range (always inside the string) of the first escape sequence at or after the offset, and the yes/no query agrees with it.',
 ['inputs'],'every byte string: escapes at any position including the very end, any digit count, any neighbouring text',
 'Tests unescape four strings, none ending in an escape or holding a malformed one.',
 [S+'Unescape.cpp',H+'Unescape.hpp'],[('find_first_escaped_char/unescape/parse_utf16',S+'Unescape.cpp')],['unescape','find_first_escaped_char','has_escaped_chars'])

p('C23','Incremental unescaping reads one character at a time and loses nothing',
 'Each call returns the next character of the view, first skipping backslash-newline pairs, and advances the view by exactly the bytes of what it read: a plain code point, \\a \\b \\f \\n \\r \\t \\v, one to three octal digits, \\x or \\X with one to eight hex digits, \\u with four (a high-low pair giving one code point), \\U with eight, or any other code point after a backslash as itself. '
 'At the end of the view it returns nothing, and the flag tells whether the character was written as an escape. '
 'A malformed escape or invalid UTF-8 throws YstringException and the view still starts at the offending character, so reading to the end consumes every byte once.',
 ['inputs','histories'],'every byte string and the whole sequence of calls until it is exhausted or throws',
 'Tests step through seven strings; numeric escapes followed by more digits, lone surrogates and errors after progress are untested.',
 [S+'Unescape.cpp',H+'Unescape.hpp'],[('unescape_next/extract_*',S+'Unescape.cpp')],['unescape_next'])

p('C24','Arbitrary bytes and arguments never corrupt, hang or escape the contract',
 'For any byte strings (valid UTF-8 or not), any indexes, limits and code point values, and any offset up to the length, every public function terminates, performs no out-of-bounds access or other undefined behaviour, and either returns or throws YstringException and no other exception. '
 'Every range or view it reports lies inside the string it was given. '
 'Inputs taken by view are never modified.',
 ['inputs'],'every public function, every combination of arguments within the documented parameter types (offsets up to the length)',
 'Tests hardly use invalid UTF-8 or extreme arguments and run without sanitizers, so out-of-bounds reads that happen to return usable bytes pass.',
 [H+'Algorithms.hpp',S+'Algorithms.cpp',S+'AlgorithmUtilities.cpp',S+'Normalize.cpp',S+'Unescape.cpp',S+'Escape.cpp',H+'DecodeUtf8.hpp',S+'ConvertCase.cpp',S+'CharClass.cpp'],[('YSTRING_THROW on undecodable input',H+'YstringException.hpp'),('safe_decode_*',H+'DecodeUtf8.hpp')],['all public functions'])

p('C25','Editing valid text keeps it valid and equal to a code point list model',
 'Starting from valid text, any sequence of library edits (append, insert, replace, range replacement, trim, substring, case conversion, composition, decomposition, reverse, escape, split and rejoin, repair) with valid arguments yields valid text after every step. '
 'After every step the text equals what the same edit does to a plain list of code points, and every query (count, index, search) agrees with that list. '
 'No edit ever splits a code point.',
 ['histories'],'every sequence of edits on every starting text',
 'Tests apply single calls to literals; no test feeds the output of one operation into another.',
 [S+'Algorithms.cpp',S+'ConvertCase.cpp',S+'Normalize.cpp',H+'Algorithms.hpp'],[('all editing functions on code point boundaries',S+'Algorithms.cpp')],['all editing functions'])

p('C26','Generated tables reproduce whatever Unicode data file they are made from',
 'For any well-formed UnicodeData-format file, the character class, case mapping and normalization tables produced by the table generator scripts make the library\'s lookups return exactly the General_Category (unassigned where absent, First/Last ranges filled), simple case mappings and two-element canonical decompositions and compositions in that file. '
 'This holds for every arrangement of ranges, alternating-case runs, isolated code points, gaps, and mapping distances. '
 'The tables committed in the library are those for the committed Unicode 16.0 file.',
 ['programs','inputs'],'every UnicodeData-format file with the standard ASCII part (the library hard-codes ASCII shortcuts)',
 'The generators have no tests; only the committed output is sampled by a handful of lookups.',
 ['tools/unicode_character_tables/make_char_class_file.py','tools/unicode_character_tables/make_case_convert_file.py','tools/unicode_character_tables/make_normalization_file.py','tools/unicode_character_tables/codegen.py',S+'CharClass.cpp',S+'ConvertCase.cpp',S+'Normalize.cpp'],[('get_class_ranges/optimize_*','tools/unicode_character_tables/make_char_class_file.py'),('make_diff_set','tools/unicode_character_tables/make_case_convert_file.py'),('get_rules','tools/unicode_character_tables/make_normalization_file.py')],['get_char_class','to_upper','to_lower','to_title','decompose','to_composed'])

p('C27','Results depend only on arguments, whatever was called before or alongside',
 'Every function returns the same result (or throws in the same way) for equal arguments, regardless of which other library calls were made before it, including calls that threw, regardless of where in memory the arguments live (or what an unused part of it holds), and regardless of the locale and errno, which it leaves alone. '
 'Calls made concurrently from several threads on distinct or shared read-only data give the same results as when made alone. '
 'There is no data race between such calls.',
 ['histories','schedules'],'every sequence of calls before a call, every set of concurrent calls',
 'Tests call each function in a fixed order from a single thread.',
 [S+'Algorithms.cpp',S+'Normalize.cpp',S+'ConvertCase.cpp',S+'CharClass.cpp',S+'Unescape.cpp',S+'Escape.cpp'],[('no mutable global state; constexpr tables',S+'*.cpp')],['all public functions'])

p('C28','Time, memory and stack grow no faster than the text',
 'For every public function and every text, with the other arguments fixed, the work done (instructions, bytes moved or allocated) grows at most in proportion to the length of the text, up to a logarithmic factor, and the depth of the call stack does not grow with it. '
 'The same holds for stepping through a whole text with the single-step functions (decode, skip, pop, remove, next and previous character, incremental unescape, repeated searches from the last hit) and for appending code points one by one. '
 'So no input, however repetitive or malformed, makes a call take quadratic time or exhaust the stack.',
 ['inputs'],'every text of every length, valid or not, and every repetition of a unit',
 'Tests use strings of a few dozen bytes, on which quadratic work and deep recursion cannot be seen.',
 [S+'Algorithms.cpp',H+'Algorithms.hpp',H+'DecodeUtf8.hpp',S+'Unescape.cpp',S+'Escape.cpp',S+'Normalize.cpp',S+'ConvertCase.cpp',S+'Utf32.cpp',S+'AlgorithmUtilities.cpp'],[('single pass loops over the text',S+'Algorithms.cpp'),('skip_prev/decode_prev look back at most a code point',H+'DecodeUtf8.hpp')],['all public functions'])

p('C29','Subranges are plain values and printed subranges and sets say what they are',
 'A Subrange holds exactly the offset and length it was given (npos and 0 by default, length 0 if only the offset is given, the distances if made from iterators of any container); its end is offset plus length, it is true exactly when its length is not 0, and two are equal exactly when both numbers are, unequal otherwise. '
 'Printed it reads "{offset: O, length: L}" with both numbers in decimal. '
 'A printed code point set reads "[...]", or "[^...]" if negated, listing single code points and first-last ranges in UTF-8 that together denote exactly the set, however it was built.',
 ['inputs'],'every pair of offsets and lengths, every sequence of add operations on a set',
 'Tests print neither and compare subranges only through CHECK on a few fixed results.',
 [H+'Subrange.hpp',S+'Subrange.cpp',H+'CodepointSet.hpp',S+'Char32Set.cpp'],[('Subrange constructors and comparison',H+'Subrange.hpp'),('operator<<',S+'Subrange.cpp'),('operator<< and add_codepoint merging',S+'Char32Set.cpp')],['Subrange','operator<<(Subrange)','operator<<(CodepointSet)'])

p('C30','Callbacks see exactly the text examined, in order, and may throw',
 'A predicate given to a search or trim function is called with exactly the code points from the start of the search in its direction, one call each and in order, up to and including the one that ends the search, and with none beyond it; trimming both ends is the two searches one after the other. '
 'A token finder given to split_where or TokenIterator is called with exactly the text left after the previous token, one call per token looked for. '
 'An exception thrown by a callback reaches the caller unchanged, after no further calls.',
 ['inputs','histories'],'every text, every (also stateful) predicate or finder, every call at which it throws',
 'Tests pass stateless lambdas and look at results only.',
 [H+'Algorithms.hpp',H+'TokenIterator.hpp'],[('find_first_where/find_last_where/trim_*_where',H+'Algorithms.hpp'),('split_where',H+'Algorithms.hpp'),('TokenIterator::next',H+'TokenIterator.hpp')],['find_first_where','find_last_where','trim_where','trim_start_where','trim_end_where','split_where','TokenIterator'])

p('C31','Sizes, positions and counts stay exact beyond 2^31 and 2^32 bytes',
 'Every public function treats a text of more than 2^31 or 2^32 bytes as it treats a short one: offsets, lengths, code point and character counts, indexes (from either end) and limits are never truncated, wrapped or taken for another value, wherever in the text they point. '
 'So every result is the one that follows from the same text with fewer repetitions, and every call still terminates.',
 ['inputs'],'every text up to the size of the address space, every index, offset and limit in it',
 'Tests use texts of a few dozen bytes, for which a 32-bit counter or position works as well.',
 [S+'Algorithms.cpp',S+'AlgorithmUtilities.cpp',H+'Algorithms.hpp',H+'DecodeUtf8.hpp',H+'Subrange.hpp',S+'Escape.cpp',S+'Unescape.cpp',S+'Normalize.cpp',S+'ConvertCase.cpp',S+'Utf32.cpp',H+'TokenIterator.hpp'],[('size_t offsets and counts, ptrdiff_t indexes and limits',S+'Algorithms.cpp'),('skip_next/skip_prev counting continuation bytes',H+'DecodeUtf8.hpp')],['all public functions'])

p('C32','Running out of memory at any point leaves nothing changed, lost or wrong',
 'If any one allocation within a call fails, or all from some point on, the call either throws std::bad_alloc or gives the result it gives otherwise; never another result, another exception or termination. '
 'A string or view it was to modify in place is then unchanged, no memory is lost, and the same call made afterwards gives its usual result.',
 ['inputs','fault_sequences'],'every public function with every argument, every allocation of the call failing',
 'No test makes an allocation fail.',
 [S+'Algorithms.cpp',S+'AlgorithmUtilities.cpp',S+'ConvertCase.cpp',S+'Normalize.cpp',S+'Utf32.cpp',S+'Escape.cpp',S+'Unescape.cpp',S+'Char32Set.cpp',H+'Algorithms.hpp'],[('results built in local strings and vectors',S+'Algorithms.cpp'),('append, replace_invalid_utf8 in place',S+'Algorithms.cpp')],['all public functions'])

p('C33','Results are the same however the library and its caller are compiled',
 'The result of every call is the same whether the library is compiled with GCC or Clang, with or without optimisation, with or without assertions, and whether plain char is signed or unsigned. '
 'So no result depends on undefined or unspecified behaviour such as the order of evaluation, uninitialised values, or the sign of char.',
 ['inputs','configurations'],'every public function with every argument, every supported compiler setting',
 'Tests are run for a single build; a result that depends on the compiler looks right in the one where the expectation was written.',
 [S+'Algorithms.cpp',S+'Escape.cpp',S+'Unescape.cpp',S+'EncodeUtf8.hpp',H+'DecodeUtf8.hpp',S+'ConvertCase.cpp',S+'CharClass.cpp',S+'Normalize.cpp',S+'Char32Set.cpp',H+'Algorithms.hpp'],[('casts to uint8_t before comparing bytes',H+'DecodeUtf8.hpp')],['all public functions'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=False)+'\n')
print(len(P))
