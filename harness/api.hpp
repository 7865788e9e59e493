// The library's public functions as plain data: byte strings in, offsets and
// strings out. Compiled in api.cpp, the only file which includes the
// library's headers. Every call checks the general contract: no exception
// but YstringException, views and ranges inside the input, input unmodified.
#pragma once
#include <cstdint>
#include <functional>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace api
{
    using Bytes = std::string_view;
    using Text = std::u32string;
    using TextV = std::u32string_view;

    template <typename T>
    struct Res
    {
        bool threw = false;
        T v{};
        bool operator==(const Res&) const = default;
    };

    struct Sub
    {
        size_t off = 0, len = 0;
        bool operator==(const Sub&) const = default;
    };

    struct Hit
    {
        Sub sub;
        char32_t cp = 0;
        bool operator==(const Hit&) const = default;
    };

    // A view into the input; off is SIZE_MAX if empty and elsewhere.
    struct View
    {
        size_t off = 0, len = 0;
        bool operator==(const View&) const = default;
    };

    struct Step
    {
        std::optional<char32_t> cp;   // or nothing
        bool ok = true;               // for bool results
        size_t pos = 0;               // new position / start of the view
        size_t end = 0;               // end of the view
        bool flag = false;            // did_unescape
        bool operator==(const Step&) const = default;
    };

    enum class It {PTR, STRING, LIST, U8, REVERSED};

    // How the bytes lie in memory: exactly, or between other bytes.
    struct Placement
    {
        bool embed = false;
        std::string before, after;
        bool null_empty = false;
        unsigned shift = 0;
        bool overlap = false;         // an argument found in another lies there
        unsigned spare = 0;           // room in a string to append to
        // The call is first made with other bytes at the same address.
        unsigned alter = 0, alter_at = 0, alter_by = 0;
    };
    extern thread_local Placement placement;

    // Whether library code is running, and whether an allocation it made has
    // been made to fail.
    extern constinit thread_local bool inside, starved;
    struct OutOfMemory {};

    struct SetSpec
    {
        // Additions of a code point, a range and a text, and what must not
        // matter: a question, copying and moving the set.
        enum OpKind {CP, RANGE, TEXT, ASK, COPY, MOVE};
        // Ops in order: (first, last, is_range)
        struct Op {char32_t first, last; int kind;};  // see OpKind
        std::vector<Op> ops;
        std::vector<Text> texts;
        bool negated = false;
    };

    using Pred = std::function<bool(char32_t)>;

    // Thrown by callbacks; passed on by the functions below.
    struct CallbackError
    {
        int n;
    };

    // DecodeUtf8.hpp
    Res<Step> decode_next(Bytes s, size_t pos, It it = It::PTR);
    Res<Step> decode_prev(Bytes s, size_t pos, It it = It::PTR);
    Res<Step> safe_decode_next(Bytes s, size_t pos, It it = It::PTR);
    Res<Step> safe_decode_prev(Bytes s, size_t pos, It it = It::PTR);
    // As above, but pos is reported after an exception too.
    Res<Step> skip_next(Bytes s, size_t pos, It it = It::PTR);
    Res<Step> skip_prev(Bytes s, size_t pos, It it = It::PTR);
    Res<Step> pop_utf8_codepoint(Bytes s);
    Res<Step> pop_last_utf8_codepoint(Bytes s);
    Res<Step> remove_utf8_codepoint(Bytes s);
    Res<Step> remove_last_utf8_codepoint(Bytes s);

    // Utf32.hpp
    Res<std::string> from_utf32(char32_t c);
    Res<std::string> from_utf32(TextV s);
    Res<Text> to_utf32(Bytes s);

    // CharClass.hpp, CodepointPredicates.hpp
    uint32_t get_char_class(char32_t c);
    constexpr int N_PREDICATES = 19;
    extern const char* const PREDICATE_NAMES[N_PREDICATES];
    bool predicate(int i, char32_t c);

    // ConvertCase.hpp
    char32_t to_lower(char32_t c);
    char32_t to_title(char32_t c);
    char32_t to_upper(char32_t c);
    Res<std::string> to_lower(Bytes s);
    Res<std::string> to_title(Bytes s);
    Res<std::string> to_upper(Bytes s);

    // Normalize.hpp
    Res<std::string> to_composed(Bytes s);
    Res<std::string> to_decomposed(Bytes s);
    Res<Text> decompose(char32_t c);

    // Algorithms.hpp
    Text ascii_whitespace();
    Text common_whitespace();
    Res<std::string> append_in_place(Bytes s, char32_t c, std::string* after = nullptr);
    Res<std::string> append(Bytes s, char32_t c);
    Res<bool> contains(Bytes s, char32_t c);
    Res<size_t> count_chars(Bytes s);
    Res<size_t> count_codepoints(Bytes s);
    Res<bool> ends_with(Bytes s, Bytes cmp);
    Res<bool> starts_with(Bytes s, Bytes cmp);
    Res<Sub> find_first(Bytes s, Bytes cmp, std::optional<size_t> off = {});
    Res<Sub> find_last(Bytes s, Bytes cmp, std::optional<size_t> off = {});
    Res<Sub> find_first_newline(Bytes s, std::optional<size_t> off = {});
    Res<Sub> find_last_newline(Bytes s, std::optional<size_t> off = {});
    Res<Hit> find_first_of(Bytes s, TextV chars, std::optional<size_t> off = {});
    Res<Hit> find_last_of(Bytes s, TextV chars, std::optional<size_t> off = {});
    Res<Hit> find_first_of_set(Bytes s, const SetSpec& set, std::optional<size_t> off = {});
    Res<Hit> find_last_of_set(Bytes s, const SetSpec& set, std::optional<size_t> off = {});
    Res<Hit> find_first_where(Bytes s, const Pred& p, std::optional<size_t> off = {});
    Res<Hit> find_last_where(Bytes s, const Pred& p, std::optional<size_t> off = {});
    Res<size_t> get_char_pos(Bytes s, ptrdiff_t pos);
    Res<Sub> get_char_range(Bytes s, ptrdiff_t pos);
    Res<View> get_char_substring(Bytes s, ptrdiff_t start, std::optional<ptrdiff_t> end);
    Res<Hit> get_codepoint(Bytes s, ptrdiff_t pos);
    Res<size_t> get_codepoint_pos(Bytes s, ptrdiff_t pos);
    Res<View> get_codepoint_substring(Bytes s, ptrdiff_t start, std::optional<ptrdiff_t> end);
    Res<Sub> get_next_char_range(Bytes s, size_t off);
    Res<Sub> get_prev_char_range(Bytes s, size_t off);
    Res<std::string> insert_char(Bytes s, ptrdiff_t pos, char32_t c);
    Res<std::string> insert_chars(Bytes s, ptrdiff_t pos, Bytes sub);
    Res<std::string> insert_codepoint(Bytes s, ptrdiff_t pos, char32_t c);
    Res<std::string> insert_codepoints(Bytes s, ptrdiff_t pos, Bytes sub);
    Res<bool> is_valid_utf8(Bytes s);
    Res<std::string> join(const std::vector<std::string>& parts, std::optional<Bytes> delimiter,
                          bool as_views);
    Res<std::string> replace(Bytes s, Bytes from, Bytes to, std::optional<ptrdiff_t> max);
    Res<std::string> replace_chars(Bytes s, ptrdiff_t start, ptrdiff_t end, Bytes repl);
    Res<std::string> replace_codepoints(Bytes s, ptrdiff_t start, ptrdiff_t end, Bytes repl);
    Res<std::string> replace_codepoint(Bytes s, char32_t from, char32_t to,
                                       std::optional<ptrdiff_t> max);
    Res<std::string> replace_invalid_utf8(Bytes s, std::optional<char32_t> c);
    Res<std::string> replace_invalid_utf8_in_place(Bytes s, std::optional<char32_t> c);
    Res<std::string> reverse(Bytes s);
    struct Params
    {
        size_t max = SIZE_MAX;
        bool ignore_empty = false;
        bool defaults = false;        // do not pass the argument
    };
    using Views = std::vector<View>;
    Res<Views> split_chars(Bytes s, TextV chars, Params p);
    Res<Views> split(Bytes s, Bytes sep, Params p);
    Res<Views> split_lines(Bytes s, Params p);
    using Finder = std::function<Sub(Bytes)>;
    Res<Views> split_where(Bytes s, const Finder& f, Params p);
    struct Token
    {
        bool more, has_token;
        View part, token, remainder;
        bool operator==(const Token&) const = default;
    };
    Res<std::vector<Token>> tokens(Bytes s, const Finder& f);
    // trim: which 0 both, 1 start, 2 end
    Res<View> trim(int which, Bytes s, std::optional<TextV> chars);
    Res<View> trim_where(int which, Bytes s, const Pred& p);

    // CodepointSet.hpp, CaseInsensitive.hpp
    bool set_contains(const SetSpec& s, char32_t c);
    bool set_ci_contains(const SetSpec& s, char32_t c);
    bool list_contains(TextV s, char32_t c);
    bool list_ci_contains(TextV s, char32_t c);
    int32_t ci_compare(char32_t a, char32_t b, bool functor);
    bool ci_equal(char32_t a, char32_t b, bool functor);
    bool ci_less(char32_t a, char32_t b, bool functor);
    namespace ci
    {
        Res<int32_t> compare(Bytes a, Bytes b);
        Res<bool> equal(Bytes a, Bytes b);
        Res<bool> less(Bytes a, Bytes b);
        Res<bool> starts_with(Bytes a, Bytes b);
        Res<bool> ends_with(Bytes a, Bytes b);
        Res<Sub> find_first(Bytes s, Bytes cmp, std::optional<size_t> off = {});
        Res<Sub> find_last(Bytes s, Bytes cmp, std::optional<size_t> off = {});
        Res<Hit> find_first_of(Bytes s, TextV chars, std::optional<size_t> off = {});
        Res<Hit> find_last_of(Bytes s, TextV chars, std::optional<size_t> off = {});
        Res<Hit> find_first_of_set(Bytes s, const SetSpec& set, std::optional<size_t> off = {});
        Res<Hit> find_last_of_set(Bytes s, const SetSpec& set, std::optional<size_t> off = {});
        Res<std::string> replace(Bytes s, Bytes from, Bytes to, std::optional<ptrdiff_t> max);
        Res<Views> split_chars(Bytes s, TextV chars, Params p);
        Res<Views> split(Bytes s, Bytes sep, Params p);
    }

    // Escape.hpp, Unescape.hpp
    Res<Sub> find_first_escapable_char(Bytes s, std::optional<size_t> off = {});
    Res<bool> has_escapable_chars(Bytes s);
    Res<std::string> escape_json(Bytes s);
    Res<Sub> find_first_escaped_char(Bytes s, std::optional<size_t> off = {});
    Res<bool> has_escaped_chars(Bytes s);
    Res<std::string> unescape_buffer(Bytes s, size_t* result = nullptr);
    Res<std::string> unescape(Bytes s);
    Res<Step> unescape_next(Bytes s, bool want_flag = true);

    // Loops over the whole text; the result is the number of steps.
    enum class Walk {NEXT, PREV, SAFE_NEXT, SAFE_PREV, SKIP_NEXT, SKIP_PREV, POP, POP_LAST, REMOVE, REMOVE_LAST,
                     NEXT_CHAR, PREV_CHAR, UNESCAPE_NEXT, FIND_NEXT, FIND_PREV, SUB_NEXT, SUB_PREV, LINE_NEXT, LINE_PREV, OF_NEXT,
                     OF_PREV, CI_NEXT, CI_PREV, CI_OF_NEXT, CI_OF_PREV, ESCAPABLE, ESCAPED, N};
    Res<size_t> walk(Walk kind, Bytes s, const Pred& p, Bytes needle, TextV list);
    // Appends c to a string n times.
    Res<std::string> grow(char32_t c, size_t n);

    // Subrange.hpp
    struct SubrangeFacts
    {
        size_t offset, length, start, end;
        bool truth, equal, unequal;
        std::string text;
        bool operator==(const SubrangeFacts&) const = default;
    };
    // a by the constructor for (offset, length), (offset) or nothing,
    // compared with b.
    SubrangeFacts subrange(int ctor, Sub a, Sub b);
    // Of iterators at three positions in a container of n elements.
    SubrangeFacts subrange_of(It kind, size_t n, size_t at, size_t first, size_t last);
    std::string set_text(const SetSpec& s);

    // Calls on texts too long to copy; results as numbers and text.
    enum class Big
    {
        VALID, COUNT_CHARS, COUNT_CODEPOINTS, CONTAINS, ENDS_WITH, STARTS_WITH, FIND_FIRST, FIND_LAST, FIRST_NEWLINE,
        LAST_NEWLINE, FIRST_OF, LAST_OF, FIRST_OF_SET, LAST_OF_SET, FIRST_WHERE, LAST_WHERE, CHAR_POS, CHAR_RANGE,
        CHAR_SUBSTRING, CODEPOINT, CODEPOINT_POS, CODEPOINT_SUBSTRING, NEXT_CHAR, PREV_CHAR, SPLIT_CHARS, SPLIT,
        SPLIT_LINES, SPLIT_WHERE, TRIM, TRIM_END, TRIM_START, TRIM_WHERE, CI_COMPARE, CI_ENDS_WITH, CI_EQUAL,
        CI_FIND_FIRST, CI_FIRST_OF, CI_FIND_LAST, CI_LAST_OF, CI_LESS, CI_SPLIT_CHARS, CI_SPLIT, CI_STARTS_WITH,
        ESCAPABLE, HAS_ESCAPABLE, ESCAPED, HAS_ESCAPED, UNESCAPE_NEXT, DECODE, DECODE_BACK, SKIP, SKIP_BACK, TOKENS,
        POP_REMOVE,
        // These make strings.
        APPEND, INSERT_CHARS, INSERT_CODEPOINT, REPLACE, REPLACE_CHARS, REPLACE_CODEPOINTS, REPLACE_CODEPOINT,
        REPLACE_INVALID, REVERSE, CI_REPLACE, ESCAPE, UNESCAPE, TO_LOWER, TO_TITLE, TO_UPPER, TO_COMPOSED,
        TO_DECOMPOSED, JOIN, TO_UTF32,
        N
    };
    extern const char* const BIG_NAMES[size_t(Big::N)];
    struct BigArgs
    {
        std::string_view s, other;     // the long text, and another one
        std::string needle, to;
        Text list;
        size_t offset = 0;
        ptrdiff_t index = 0, index2 = 0, max = 0;
        char32_t c1 = 0, c2 = 0;
    };
    struct BigResult
    {
        std::vector<uint64_t> numbers;
        std::string text;
        bool has_text = false;
    };
    Res<BigResult> big(Big kind, const BigArgs& a);
}
