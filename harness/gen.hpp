// Generators of code points, texts, byte strings, indexes and needles.
#pragma once
#include "engine.hpp"
#include "model.hpp"
#include <optional>

namespace gen
{
    using model::Text;
    using pbt::Src;

    enum Focus : unsigned
    {
        ANY = 0, ASCII = 1, MARKS = 2, CASE = 4, NORM = 8, NEWLINES = 16,
        SPACES = 32, ESCAPES = 64, LETTERS = 128, EDGES = 256
    };

    // A proposal for a code point (unrecorded randomness).
    char32_t propose(Src& s, unsigned focus);
    // A code point related to c: other case, part of its decomposition, ...
    char32_t propose_related(Src& s, char32_t c);

    char32_t cp(Src& s, unsigned focus = ANY);
    // Any char32_t, mostly beyond the code points.
    char32_t big(Src& s);
    std::vector<char32_t> alphabet(Src& s, unsigned focus, size_t max = 5);
    // Rarely inserts a long run of something (up to 65,600 bytes).
    bool lengthen(Src& s, Text& t, const std::vector<char32_t>& a);
    Text text(Src& s, const std::vector<char32_t>& alphabet, unsigned focus = ANY,
              unsigned max_mean = 40);
    Text text(Src& s, unsigned focus = ANY, unsigned max_mean = 40);
    // Part of t, part with changes, or unrelated text from the alphabet.
    Text needle(Src& s, const Text& t, const std::vector<char32_t>& alphabet,
                unsigned focus = ANY);
    // The length, at most m, of a needle which can be compared at every
    // position of a text of length n in acceptable time.
    size_t affordable(size_t n, size_t m, size_t limit = 1 << 20);
    // The text with some letters in another case (same simple upper case).
    Text recase(Src& s, const Text& t);

    std::string bytes(Src& s, unsigned focus = ANY);
    // A short sequence which cannot be decoded.
    std::string broken(Src& s);
    // One escape sequence, well formed or nearly so.
    std::string escape(Src& s);
    std::string hex_digits(Src& s, size_t n);
    std::string number(uint64_t v, size_t digits, bool upper);

    // Index for a sequence of n elements: any ptrdiff_t, mostly near it.
    int64_t index(Src& s, size_t n);
    // Mostly small sizes, sometimes huge.
    uint64_t limit(Src& s, size_t n);
    // Subset given as a predicate/list over the text's code points.
    Text list(Src& s, const Text& t, const std::vector<char32_t>& alphabet, unsigned focus = ANY);
    std::optional<int64_t> opt_index(Src& s, size_t n);
}
