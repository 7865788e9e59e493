// Reference model: UTF-8, Unicode data and text operations, written
// independently of the library (code point lists rather than bytes).
#pragma once
#include <array>
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace model
{
    constexpr char32_t MAX = 0x10FFFF;
    constexpr char32_t INVALID = 0xFFFFFFFF;
    using Text = std::u32string;

    // ------------------------------------------------------------- UTF-8
    void put(std::string& s, char32_t cp);
    std::string enc(char32_t cp);
    std::string enc(const Text& t);

    struct Unit
    {
        size_t pos, len;
        bool ok;
        char32_t cp;
    };

    // Expected length given a lead byte, 0 if it isn't a lead byte.
    unsigned lead_length(unsigned char c);
    bool is_cont(unsigned char c);
    // The code point starting at pos. ok is false if there is none.
    Unit at(std::string_view s, size_t pos);
    // The code point ending exactly at pos, found by looking forwards.
    Unit before(std::string_view s, size_t pos);
    // Lead byte plus the continuation bytes it can claim, or stray bytes.
    std::vector<Unit> units(std::string_view s);
    bool valid(std::string_view s);
    std::optional<Text> decode(std::string_view s);

    // ----------------------------------------------------------- Unicode
    enum Gc {Lu, Ll, Lt, Lm, Lo, Mn, Mc, Me, Nd, Nl, No, Pc, Pd, Ps, Pe, Pi,
             Pf, Po, Sm, Sc, Sk, So, Zs, Zl, Zp, Cc, Cf, Cs, Co, Cn};

    void load(const std::string& path);
    Gc gc(char32_t cp);
    char32_t upper(char32_t cp);
    char32_t lower(char32_t cp);
    char32_t title(char32_t cp);
    std::optional<std::pair<char32_t, char32_t>> pair(char32_t cp);
    char32_t compose(char32_t a, char32_t b);     // 0 if not a pair
    Text decompose(char32_t cp);
    bool is_mark(char32_t cp);
    bool is_letter(char32_t cp);
    bool is_separator(char32_t cp);
    bool is_newline(char32_t cp);

    Text upper_str(const Text& t);
    Text lower_str(const Text& t);
    Text title_str(const Text& t);
    Text decompose_str(const Text& t);
    Text compose_str(const Text& t);
    Text map_upper(const Text& t);                // simple mapping only

    // Lists for the generators.
    struct Lists
    {
        std::vector<char32_t> cased, specials, marks, decomposable, first,
            second, deep, class_edges, assigned_edges, letters, composable_mark,
            multi_upper;
    };
    const Lists& lists();

    // -------------------------------------------------------- characters
    struct Span
    {
        size_t begin, end;       // code point indexes
        size_t size() const {return end - begin;}
    };
    std::vector<Span> chars(const Text& t);

    // Byte offsets of the code points of t, and the total size last.
    std::vector<size_t> offsets(const Text& t);

    // [first, last) of n elements by slice semantics.
    std::pair<size_t, size_t> slice(size_t n, int64_t start, int64_t end);

    // Code points equal case-insensitively.
    bool ci_eq(char32_t a, char32_t b);
    // All code points with the same upper case as cp.
    std::vector<char32_t> variants(char32_t cp);
}
