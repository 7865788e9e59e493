#include "gen.hpp"
#include <algorithm>

namespace gen
{
    using model::MAX;

    namespace
    {
        char32_t any_of(Src& s, const std::vector<char32_t>& v)
        {
            return v[s.raw(v.size())];
        }
        char32_t clamp(int64_t v)
        {
            return v < 0 ? 0 : v > int64_t(MAX) ? MAX : char32_t(v);
        }
        const std::vector<char32_t> NEWLINE_LIST = {
            10, 13, 10, 13, 11, 12, 0x85, 0x2028, 0x2029, 9, 14, 0x84, 0x86,
            0x2027, 0x202A, 0x0D0A, 0x0A, 0x1C, 0x1D, 0x1E, 0x1F, 0x2B, 0};
        const std::vector<char32_t> SPACE_LIST = {
            32, 9, 10, 13, 11, 12, 0xA0, 0x85, 0x1680, 0x2000, 0x2003, 0x200A,
            0x2028, 0x2029, 0x202F, 0x205F, 0x3000, 0x200B, 0xFEFF, 0x180E, 0x1F, 0x21, 0x20, 0};
        const std::vector<char32_t> BOUNDS = {
            0, 1, 0x1F, 0x20, 0x22, 0x5C, 0x7E, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xFF, 0x100,
            0x2FF, 0x300, 0x36F, 0x370, 0x7FF, 0x800, 0xFFF, 0x1000, 0x1FFF, 0x2000,
            0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xF8FF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000,
            0x10FFF, 0x1FFFF, 0x20000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFD, 0x10FFFF};
        const std::string ESCAPE_ASCII = "\\\\\\\\\"nrtabfvxXuU01234567890189abcdefABCDEFgG/'?\n";
    }

    char32_t propose_related(Src& s, char32_t c)
    {
        switch (s.raw(11))
        {
        case 0: return model::upper(c);
        case 1: return model::lower(c);
        case 2: return model::title(c);
        case 3:
        {
            auto v = model::variants(c);
            return v[s.raw(v.size())];
        }
        case 4:
        {
            auto d = model::decompose(c);
            return d[s.raw(d.size())];
        }
        case 5:
            if (auto p = model::pair(c))
                return s.raw(2) ? p->first : p->second;
            return c;
        case 6: return clamp(int64_t(c) + 1);
        case 7: return clamp(int64_t(c) - 1);
        case 8: return clamp(int64_t((c & 0xFFFF) + (s.raw(17) << 16)));
        case 9: return clamp(c ^ (1u << s.raw(21)));
        default: return c & (s.raw(2) ? 0xFF : 0x7F);
        }
    }

    char32_t propose(Src& s, unsigned focus)
    {
        auto& l = model::lists();
        if (focus && s.raw(100) < 60)
        {
            // One of the wanted kinds.
            unsigned f;
            do
                f = 1u << s.raw(9);
            while (!(f & focus));
            switch (f)
            {
            case ASCII: return char32_t(s.raw(8) ? 32 + s.raw(95) : s.raw(128));
            case MARKS: return s.raw(3) ? any_of(s, l.marks) : clamp(0x300 + int64_t(s.raw(0x70)));
            case CASE:
                switch (s.raw(4))
                {
                case 0: return any_of(s, l.specials);
                case 1: return any_of(s, l.multi_upper);
                default: return any_of(s, l.cased);
                }
            case NORM:
                switch (s.raw(6))
                {
                case 0: return any_of(s, l.first);
                case 1: return any_of(s, l.second);
                case 2: return any_of(s, l.deep);
                case 3: return clamp(0x300 + int64_t(s.raw(0x30)));
                case 4: return char32_t((s.raw(2) ? 'A' : 'a') + s.raw(26));
                default: return any_of(s, l.decomposable);
                }
            case NEWLINES: return any_of(s, NEWLINE_LIST);
            case SPACES: return any_of(s, SPACE_LIST);
            case ESCAPES:
                return s.raw(8) ? char32_t(ESCAPE_ASCII[s.raw(ESCAPE_ASCII.size())])
                                : char32_t(s.raw(34));
            case LETTERS: return any_of(s, l.letters);
            default: return any_of(s, l.class_edges) - (s.raw(2) ? 1 : 0);
            }
        }
        switch (s.raw(20))
        {
        case 0: case 1: return char32_t('a' + s.raw(26));
        case 2: return char32_t('A' + s.raw(26));
        case 3: return char32_t(s.raw(128));
        case 4: return char32_t(0x80 + s.raw(0x80));
        case 5: return any_of(s, NEWLINE_LIST);
        case 6: return any_of(s, SPACE_LIST);
        case 7: return any_of(s, l.specials);
        case 8: case 9: return any_of(s, l.marks);
        case 10: return any_of(s, l.cased);
        case 11: return any_of(s, l.decomposable);
        case 12: return any_of(s, l.second);
        case 13: return any_of(s, BOUNDS);
        case 14: return clamp(int64_t(any_of(s, BOUNDS)) + int64_t(s.raw(5)) - 2);
        case 15:
        {
            auto& d = pbt::dictionary();
            if (d.empty())
                return 'd';
            auto v = d[s.raw(d.size())];
            return v <= MAX ? char32_t(v) : char32_t(v & 0xFFFF);
        }
        case 16: return any_of(s, l.class_edges) - (s.raw(2) ? 1 : 0);
        case 17: return char32_t(s.raw(MAX + 1));
        case 18: return char32_t(s.raw(0x10000));
        default: return char32_t(0xD800 + s.raw(0x800));
        }
    }

    char32_t cp(Src& s, unsigned focus)
    {
        return char32_t(s.choose_by(0, MAX, [&]() {return propose(s, focus);}));
    }

    char32_t big(Src& s)
    {
        return char32_t(s.choose_by(0, 0xFFFFFFFF, [&]() -> uint64_t
        {
            switch (s.raw(6))
            {
            case 0: return MAX + 1 + s.raw(3);
            case 1: return s.raw(0xFFFFFFFF) + 1;
            case 2: return 0xFFFFFFFF - s.raw(3);
            case 3: return (uint64_t(1) << (20 + s.raw(12))) + s.raw(0x200);
            case 4: return propose(s, 0) | (uint64_t(1 + s.raw(2000)) << 21);
            default: return 0x110000 + s.raw(0xF0000);
            }
        }));
    }

    std::vector<char32_t> alphabet(Src& s, unsigned focus, size_t max)
    {
        std::vector<char32_t> v;
        do
        {
            bool related = !v.empty() && s.flag(2, 5);
            if (related)
            {
                auto base = s.pick(v);
                v.push_back(char32_t(s.choose_by(0, MAX, [&]() {return propose_related(s, base);})));
            }
            else
                v.push_back(cp(s, focus));
        } while (v.size() < max && s.flag(3, 4));
        return v;
    }

    // The length in bytes of a rare, long run of something: such that what is
    // before or after it lies around a power of two.
    static uint64_t long_run(Src& s)
    {
        return s.rare([&]() -> uint64_t
        {
            auto r = s.raw(pbt::is_thorough() ? 3000 : 6000);
            if (r > 12)
                return 0;
            auto k = r ? 8 + s.raw(5) : 13 + s.raw(4);
            return (1u << k) - 40 + s.raw(60);
        });
    }

    bool lengthen(Src& s, Text& t, const std::vector<char32_t>& a)
    {
        auto size = long_run(s);
        if (!size)
            return false;
        Text unit;
        if (!t.empty() && s.flag(1, 2))
        {
            auto b = s.choose(0, t.size() - 1);
            unit = t.substr(b, s.choose(1, 4));
        }
        else
            unit = Text(1, s.flag(1, 4) ? U'a' : s.pick(a));
        auto n = size / model::enc(unit).size();
        Text run;
        for (uint64_t i = 0; i < n; ++i)
            run += unit;
        t.insert(s.choose(0, t.size()), run);
        return true;
    }

    Text text(Src& s, const std::vector<char32_t>& a, unsigned focus, unsigned max_mean)
    {
        static const unsigned means[] = {2, 5, 12, 40, 150};
        size_t n = 5;
        while (n > 1 && means[n - 1] > max_mean)
            --n;
        auto mean = means[s.choose_by(0, n - 1, [&]() -> uint64_t
        {
            auto r = s.raw(100);
            return r < 30 ? 0 : r < 65 ? 1 : r < 92 ? 2 : r < 99 ? 3 : 4;
        })];
        Text t;
        while (t.size() < (pbt::is_thorough() ? 20000u : 2000u) && s.flag(mean, mean + 1))
        {
            auto k = s.choose_by(0, a.size(), [&]() {return s.raw(20) == 0 ? a.size() : s.raw(a.size());});
            char32_t c = k < a.size() ? a[k] : cp(s, focus);
            auto rep = s.choose_by(1, pbt::is_thorough() ? 3000 : 400, [&]() -> uint64_t
            {
                auto r = s.raw(1000);
                if (r < 930)
                    return 1;
                if (r < 985)
                    return 1 + s.raw(6);
                if (r < 998)
                    return 1 + s.raw(24);
                return pbt::is_thorough() && s.raw(8) == 0 ? s.raw(3000) + 1 : s.raw(300) + 1;
            });
            t.append(rep, c);
        }
        if (max_mean >= 40)
            lengthen(s, t, a);
        return t;
    }

    Text text(Src& s, unsigned focus, unsigned max_mean)
    {
        return text(s, alphabet(s, focus), focus, max_mean);
    }

    Text recase(Src& s, const Text& t)
    {
        // All one way, or each code point by itself.
        switch (s.weighted({1, 2, 2, 5}))
        {
        case 0: return t;
        case 1: return model::map_upper(t);
        case 2:
        {
            Text r;
            for (auto c : t)
                r += model::ci_eq(model::lower(c), c) ? model::lower(c) : c;
            return r;
        }
        default:
        {
            Text r;
            size_t k = 0;
            for (auto c : t)
            {
                if (++k > 40)
                {
                    r += c;
                    continue;
                }
                auto v = model::variants(c);
                r += s.flag(1, 2) ? v[s.choose(0, v.size() - 1)] : c;
            }
            return r;
        }
        }
    }

    static Text some_needle(Src& s, const Text& t, const std::vector<char32_t>& a, unsigned focus)
    {
        switch (s.weighted({1, 8, 3, 3, 4}))
        {
        case 0: return {};
        case 1:
        case 4:
        {
            // A (mostly short) part of the text.
            if (t.empty())
                return Text(1, a[0]);
            if (t.size() > 200 && s.flag(1, 2))
            {
                // Nearly all of a long text.
                size_t b = s.choose(0, 9);
                return t.substr(b, t.size() - b - s.choose(0, 9));
            }
            size_t b = s.choose(0, t.size() - 1);
            size_t n = s.choose_by(1, t.size() - b, [&]() -> uint64_t
                {return s.raw(8) == 0 ? s.raw(t.size() - b) + 1 : std::min<uint64_t>(s.raw(4) + 1, t.size() - b);});
            return t.substr(b, n);
        }
        case 2:
        {
            // A part with a change.
            if (t.empty())
                return Text(1, a[0]);
            size_t b = s.choose(0, t.size() - 1);
            size_t n = s.choose_by(1, t.size() - b, [&]() {return std::min<uint64_t>(s.raw(5) + 1, t.size() - b);});
            auto r = t.substr(b, n);
            size_t p = s.choose(0, r.size() - 1);
            switch (s.weighted({1, 1, 1}))
            {
            case 0: r[p] = char32_t(s.choose_by(0, model::MAX, [&]() {return propose_related(s, r[p]);})); break;
            case 1: r.insert(p, 1, s.pick(a)); break;
            default: r.erase(p, 1);
            }
            return r;
        }
        default:
            return text(s, a, focus, 2);
        }
    }

    Text needle(Src& s, const Text& t, const std::vector<char32_t>& a, unsigned focus)
    {
        auto r = some_needle(s, t, a, focus);
        r.resize(affordable(t.size(), r.size()));
        return r;
    }

    size_t affordable(size_t n, size_t m, size_t limit)
    {
        return n * m <= limit ? m : limit / n;
    }

    std::string broken(Src& s)
    {
        std::string r;
        switch (s.weighted({1, 3, 2, 1, 2}))
        {
        case 0:
            r += char(s.choose(0x80, 0xBF));
            break;
        case 1:
        {
            // Truncated sequence.
            auto n = s.choose(2, 4);
            static const uint8_t lo[] = {0, 0, 0xC0, 0xE0, 0xF0}, hi[] = {0, 0, 0xDF, 0xEF, 0xF7};
            r += char(s.choose(lo[n], hi[n]));
            auto k = s.choose(0, n - 2);
            while (k--)
                r += char(s.choose(0x80, 0xBF));
            break;
        }
        case 2:
        {
            auto n = s.choose(1, 8);
            while (n--)
                r += char(s.choose(0x80, 0xBF));
            break;
        }
        case 3:
            r += char(s.choose(0xF8, 0xFF));
            break;
        default:
        {
            // Sequence with too many continuation bytes.
            auto c = cp(s);
            r = model::enc(c);
            auto n = s.choose(1, 4);
            while (n--)
                r += char(s.choose(0x80, 0xBF));
        }
        }
        return r;
    }

    std::string bytes(Src& s, unsigned focus)
    {
        auto a = alphabet(s, focus, 4);
        static const unsigned means[] = {2, 5, 12, 40};
        auto mean = means[s.choose(0, 3)];
        // How often things are broken.
        unsigned rate = unsigned(s.choose_by(0, 10, [&]() {return s.raw(4) == 0 ? s.raw(11) : s.raw(4);}));
        std::string r;
        while (s.flag(mean, mean + 1) && r.size() < 5000)
        {
            if (s.flag(rate, 10))
            {
                switch (s.weighted({3, 2, 1, 1}))
                {
                case 0: r += broken(s); break;
                case 1: r += char(s.choose(0, 255)); break;
                case 2:
                {
                    // Overlong or too large, but well formed.
                    auto n = s.choose(2, 4);
                    if (n == 2)
                        r += char(s.choose(0xC0, 0xC1));
                    else if (n == 3)
                        (r += char(0xE0)) += char(s.choose(0x80, 0x9F));
                    else if (s.flag(1, 2))
                        ((r += char(s.choose(0xF4, 0xF7))) += char(s.choose(0x90, 0xBF))) += char(s.choose(0x80, 0xBF));
                    else
                        ((r += char(0xF0)) += char(s.choose(0x80, 0x8F))) += char(s.choose(0x80, 0xBF));
                    r += char(s.choose(0x80, 0xBF));
                    break;
                }
                default:
                    // Remove the last byte.
                    if (!r.empty())
                        r.pop_back();
                }
            }
            else
            {
                char32_t c = s.flag(9, 10) ? s.pick(a) : cp(s, focus);
                model::put(r, c);
            }
        }
        if (auto size = long_run(s))
        {
            std::string unit = s.flag(1, 4) ? std::string(1, char(s.choose(0, 255))) : model::enc(s.pick(a));
            if (!r.empty() && s.flag(1, 2))
                unit = r.substr(s.choose(0, r.size() - 1), s.choose(1, 6));
            std::string run;
            while (run.size() < size)
                run += unit;
            r.insert(s.choose(0, r.size()), run);
        }
        return r;
    }

    int64_t index(Src& s, size_t n)
    {
        auto z = s.choose_by(0, UINT64_MAX, [&]() -> uint64_t
        {
            auto zig = [](int64_t v) {return (uint64_t(v) << 1) ^ uint64_t(v >> 63);};
            auto near = int64_t(s.raw(n + 3));
            switch (s.raw(24))
            {
            case 0: return zig(INT64_MAX - int64_t(s.raw(3)));
            case 1: return zig(INT64_MIN + int64_t(s.raw(3)));
            case 2: return zig((s.raw(2) ? 1 : -1) * int64_t(1ull << s.raw(63)));
            case 3: return zig((s.raw(2) ? 1 : -1) * int64_t((uint64_t(1) << 32) + s.raw(n + 3)));
            case 4: return zig(int64_t(n) + int64_t(s.raw(3)));
            case 5: return zig(-int64_t(n) - int64_t(s.raw(3)));
            case 6: return zig(s.raw(2) ? 0 : -1);
            case 7: return zig(int64_t(s.raw(4 * n + 10)) - int64_t(2 * n + 5));
            default: return zig(s.raw(2) ? near : -near);
            }
        });
        return int64_t(z >> 1) ^ -int64_t(z & 1);
    }

    std::optional<int64_t> opt_index(Src& s, size_t n)
    {
        if (s.flag(1, 8))
            return {};
        return index(s, n);
    }

    uint64_t limit(Src& s, size_t n)
    {
        return s.choose_by(0, UINT64_MAX, [&]() -> uint64_t
        {
            switch (s.raw(10))
            {
            case 0: return UINT64_MAX - s.raw(2);
            case 1: return uint64_t(1) << s.raw(64);
            case 2: return n + s.raw(3);
            default: return s.raw(n < 6 ? n + 2 : 8);
            }
        });
    }

    Text list(Src& s, const Text& t, const std::vector<char32_t>& a, unsigned focus)
    {
        Text r;
        while (r.size() < 30 && s.flag(2, 3))
        {
            switch (s.weighted({3, 3, 1}))
            {
            case 0: r += s.pick(a); break;
            case 1: r += t.empty() ? s.pick(a) : t[s.choose(0, t.size() - 1)]; break;
            default: r += cp(s, focus);
            }
        }
        // Rarely a long one: rising, falling or mixed.
        if (auto n = s.rare([&]() {return s.raw(400) ? 0 : 30 + s.raw(400);}))
        {
            auto c = int64_t(s.flag(1, 2) ? s.pick(a) : cp(s, focus)) + int64_t(s.choose(0, 40)) - 20;
            auto step = int64_t(s.choose(0, 10)) - 4;
            if (!step)
                step = 7919;
            auto at = s.choose(0, r.size());
            Text run;
            for (uint64_t i = 0; i < n; ++i)
                run += char32_t(uint64_t(c + int64_t(i) * step + 0x110000) % 0x110000);
            r.insert(at, run);
        }
        return r;
    }
}

// --------------------------------------------------------------- escapes

std::string gen::hex_digits(Src& src, size_t n)
{
    std::string r;
    while (n--)
        r += "0123456789abcdefABCDEF"[src.choose(0, 21)];
    return r;
}

std::string gen::number(uint64_t v, size_t digits, bool upper)
{
    std::string r;
    do
    {
        r.insert(0, 1, (upper ? "0123456789ABCDEF" : "0123456789abcdef")[v & 15]);
        v >>= 4;
    } while (v);
    if (r.size() < digits)
        r.insert(0, digits - r.size(), '0');
    return r;
}

// One escape sequence, well formed or nearly so.
std::string gen::escape(Src& src)
{
    bool up = src.flag(1, 2);
    switch (src.weighted({3, 3, 3, 4, 4, 3, 2, 1, 1, 2}))
    {
    case 0:
        return std::string("\\") + "abfnrtv"[src.choose(0, 6)];
    case 1:
        return std::string("\\") + char(src.choose(0, 127));
    case 2:
    {
        std::string r = "\\";
        auto n = src.choose(1, 4);
        while (n--)
            r += char('0' + src.choose(0, src.flag(1, 10) ? 9 : 7));
        return r;
    }
    case 3:
    {
        // \x with any number of digits or a value.
        std::string r = src.flag(1, 3) ? "\\X" : "\\x";
        if (src.flag(1, 2))
            return r + hex_digits(src, src.choose_by(0, 12, [&]() {return src.raw(3) ? src.raw(5) : src.raw(13);}));
        return r + std::string(src.choose_by(0, 40, [&]() {return src.raw(4) ? src.raw(3) : src.raw(41);}), '0')
               + number(gen::cp(src), 1 + src.choose(0, 7), up);
    }
    case 4:
    {
        // \u, pairs of them.
        auto one = [&]()
        {
            static const unsigned lo[] = {0, 0xD800, 0xDC00, 0xD7FE, 0xDBFE, 0xDFFE},
                                  hi[] = {0xFFFF, 0xDBFF, 0xDFFF, 0xD802, 0xDC02, 0xE002};
            auto k = src.weighted({3, 4, 4, 1, 1, 1});
            auto v = k ? src.choose(lo[k], hi[k]) : std::min<uint64_t>(0xFFFF, gen::cp(src));
            auto r = (src.flag(1, 30) ? "\\U" : "\\u") + number(v, 4, up);
            if (src.flag(1, 12))
                r.resize(r.size() - src.choose(1, r.size()));
            else if (src.flag(1, 20))
                r[src.choose(1, r.size() - 1)] = char(src.choose(1, 127));
            return r;
        };
        std::string r = one();
        if (src.flag(2, 3))
            r += one();
        if (src.flag(1, 6))
            r += one();
        return r;
    }
    case 5:
    {
        uint64_t v = src.flag(1, 6) ? src.choose(0, UINT32_MAX) : gen::cp(src);
        auto r = "\\U" + number(v, 8, up);
        if (src.flag(1, 6))
            r.resize(r.size() - src.choose(1, r.size()));
        return r;
    }
    case 6:
        return "\\" + model::enc(gen::cp(src));
    case 7:
        return "\\";
    case 8:
        return "\\" + gen::broken(src);
    default:
    {
        std::string r;
        auto n = src.choose(1, 3);
        while (n--)
            r += src.flag(1, 8) ? "\\\r" : "\\\n";
        return r;
    }
    }
}
