#include "model.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <unordered_map>

namespace model
{
    void put(std::string& s, char32_t cp)
    {
        if (cp <= 0x7F)
            s += char(cp);
        else if (cp <= 0x7FF)
        {
            s += char(0xC0 + cp / 64);
            s += char(0x80 + cp % 64);
        }
        else if (cp <= 0xFFFF)
        {
            s += char(0xE0 + cp / 4096);
            s += char(0x80 + cp / 64 % 64);
            s += char(0x80 + cp % 64);
        }
        else
        {
            s += char(0xF0 + cp / 262144);
            s += char(0x80 + cp / 4096 % 64);
            s += char(0x80 + cp / 64 % 64);
            s += char(0x80 + cp % 64);
        }
    }
    std::string enc(char32_t cp)
    {
        std::string s;
        put(s, cp);
        return s;
    }
    std::string enc(const Text& t)
    {
        std::string s;
        for (auto c : t)
            put(s, c);
        return s;
    }

    unsigned lead_length(unsigned char c)
    {
        if (c < 0x80) return 1;
        if (c < 0xC0) return 0;
        if (c < 0xE0) return 2;
        if (c < 0xF0) return 3;
        if (c < 0xF8) return 4;
        return 0;
    }
    bool is_cont(unsigned char c)
    {
        return c >= 0x80 && c < 0xC0;
    }
    Unit at(std::string_view s, size_t pos)
    {
        Unit u{pos, 0, false, INVALID};
        if (pos >= s.size())
            return u;
        unsigned n = lead_length(s[pos]);
        if (n == 0 || s.size() - pos < n)
            return u;
        static const unsigned lead_mod[] = {0, 128, 32, 16, 8};
        uint32_t v = (unsigned char)s[pos] % lead_mod[n];
        for (unsigned i = 1; i < n; ++i)
        {
            if (!is_cont(s[pos + i]))
                return u;
            v = v * 64 + (unsigned char)s[pos + i] % 64;
        }
        return {pos, n, true, v};
    }
    Unit before(std::string_view s, size_t pos)
    {
        for (unsigned n = 1; n <= 4 && n <= pos; ++n)
        {
            auto u = at(s.substr(0, pos), pos - n);
            if (u.ok && u.len == n)
                return u;
        }
        return {pos, 0, false, INVALID};
    }
    std::vector<Unit> units(std::string_view s)
    {
        std::vector<Unit> r;
        size_t i = 0;
        while (i < s.size())
        {
            auto u = at(s, i);
            if (!u.ok)
            {
                unsigned n = lead_length(s[i]);
                size_t max = n ? n : s.size();
                u.len = 1;
                while (u.len < max && i + u.len < s.size() && is_cont(s[i + u.len]))
                    ++u.len;
            }
            r.push_back(u);
            i += u.len;
        }
        return r;
    }
    bool valid(std::string_view s)
    {
        return decode(s).has_value();
    }
    std::optional<Text> decode(std::string_view s)
    {
        Text t;
        for (size_t i = 0; i < s.size();)
        {
            auto u = at(s, i);
            if (!u.ok)
                return {};
            t.push_back(u.cp);
            i += u.len;
        }
        return t;
    }

    namespace
    {
        std::vector<uint8_t> g_gc;
        std::vector<char32_t> g_upper, g_lower, g_title;
        std::unordered_map<char32_t, std::pair<char32_t, char32_t>> g_pair;
        std::unordered_map<uint64_t, char32_t> g_compose;
        std::unordered_map<char32_t, std::vector<char32_t>> g_variants;
        Lists g_lists;
    }

    void load(const std::string& path)
    {
        static const char* names[] = {
            "Lu", "Ll", "Lt", "Lm", "Lo", "Mn", "Mc", "Me", "Nd", "Nl", "No",
            "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po", "Sm", "Sc", "Sk", "So",
            "Zs", "Zl", "Zp", "Cc", "Cf", "Cs", "Co", "Cn"};
        if (!g_gc.empty())
            return;
        g_gc.assign(MAX + 1, Cn);
        g_upper.resize(MAX + 1);
        for (char32_t c = 0; c <= MAX; ++c)
            g_upper[c] = c;
        g_lower = g_title = g_upper;
        std::ifstream f(path);
        std::string line;
        size_t n = 0;
        auto& l = g_lists;
        while (std::getline(f, line))
        {
            ++n;
            std::vector<std::string> p;
            std::stringstream in(line);
            std::string part;
            while (std::getline(in, part, ';'))
                p.push_back(part);
            p.resize(7);
            auto num = [](const std::string& s) {return char32_t(strtoul(s.c_str(), nullptr, 16));};
            char32_t lo = num(p[0]), hi = num(p[1]);
            int g = 0;
            while (p[2] != names[g])
                ++g;
            for (auto c = lo; c <= hi; ++c)
                g_gc[c] = uint8_t(g);
            if (!p[3].empty())
            {
                auto sp = p[3].find(' ');
                char32_t a = num(p[3]), b = num(p[3].substr(sp + 1));
                g_pair[lo] = {a, b};
                g_compose[uint64_t(a) << 32 | b] = lo;
                l.decomposable.push_back(lo);
                l.first.push_back(a);
                l.second.push_back(b);
            }
            if (!p[4].empty()) g_upper[lo] = num(p[4]);
            if (!p[5].empty()) g_lower[lo] = num(p[5]);
            if (!p[6].empty()) g_title[lo] = num(p[6]);
            if (!p[4].empty() || !p[5].empty() || !p[6].empty())
                l.cased.push_back(lo);
            if (lo == hi && (g == Mn || g == Mc || g == Me))
                l.marks.push_back(lo);
        }
        if (n < 30000)
        {
            fprintf(stderr, "cannot read %s\n", path.c_str());
            exit(3);
        }
        for (char32_t c = 0; c <= MAX; ++c)
        {
            if (c && g_gc[c] != g_gc[c - 1])
                l.class_edges.push_back(c);
            if (c && (g_gc[c] == Cn) != (g_gc[c - 1] == Cn))
                l.assigned_edges.push_back(c);
            if (g_gc[c] <= Lo && c < 0x3000)
                l.letters.push_back(c);
            if (g_upper[c] != c)
                g_variants[g_upper[c]].push_back(c);
        }
        for (auto& [u, v] : g_variants)
            if (v.size() > 1)
                for (auto c : v)
                    l.multi_upper.push_back(c);
        std::sort(l.multi_upper.begin(), l.multi_upper.end());
        for (auto c : l.decomposable)
            if (decompose(c).size() > 2)
                l.deep.push_back(c);
        std::sort(l.second.begin(), l.second.end());
        l.second.erase(std::unique(l.second.begin(), l.second.end()), l.second.end());
        l.specials = {0xDF, 0x1E9E, 0x130, 0x131, 0x17F, 0x212A, 0x212B, 0xC5, 0xE5, 0xB5,
                      0x3BC, 0x39C, 0x3C2, 0x3C3, 0x3A3, 0x1C4, 0x1C5, 0x1C6, 0x1F1, 0x1F2,
                      0x345, 0x1FBE, 0x3B9, 0x399, 0x1E9B, 0x1E61, 0xFF, 0x178, 0xD7, 0xF7,
                      0x149, 0x1F0, 0x390, 0x10D0, 0x1C90, 0x13A0, 0xAB70, 0x13F8, 0x1C80,
                      0x10400, 0x10428, 0x1E900, 0x1E922, 0x2C2F, 0xA7AE, 0x26A, 0x1FB3,
                      0x1FBC, 0x24D0, 0x24B6, 0x2170, 0x2160, 0xFB01, 0xA64A, 0x1C88,
                      0x2028, 0x2029, 0x85, 0xA0, 0xAD, 0x3000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF,
                      0x200B, 0x200D, 0xFE0F, 0x1F600, 0x1F468, 0x110BD, 0xE0001, 0xE0100};
    }

    const Lists& lists()
    {
        return g_lists;
    }
    Gc gc(char32_t cp)
    {
        return cp <= MAX ? Gc(g_gc[cp]) : Cn;
    }
    char32_t upper(char32_t cp)
    {
        return cp <= MAX ? g_upper[cp] : cp;
    }
    char32_t lower(char32_t cp)
    {
        return cp <= MAX ? g_lower[cp] : cp;
    }
    char32_t title(char32_t cp)
    {
        return cp <= MAX ? g_title[cp] : cp;
    }
    std::optional<std::pair<char32_t, char32_t>> pair(char32_t cp)
    {
        auto it = g_pair.find(cp);
        if (it == g_pair.end())
            return {};
        return it->second;
    }
    char32_t compose(char32_t a, char32_t b)
    {
        auto it = g_compose.find(uint64_t(a) << 32 | b);
        return it == g_compose.end() ? 0 : it->second;
    }
    Text decompose(char32_t cp)
    {
        if (auto p = pair(cp))
        {
            auto t = decompose(p->first);
            t.push_back(p->second);
            return t;
        }
        return Text(1, cp);
    }
    bool is_mark(char32_t cp)
    {
        auto g = gc(cp);
        return g == Mn || g == Mc || g == Me;
    }
    bool is_letter(char32_t cp)
    {
        return gc(cp) <= Lo;
    }
    bool is_separator(char32_t cp)
    {
        auto g = gc(cp);
        return g == Zs || g == Zl || g == Zp;
    }
    bool is_newline(char32_t cp)
    {
        return (cp >= 10 && cp <= 13) || cp == 0x85 || cp == 0x2028 || cp == 0x2029;
    }

    Text upper_str(const Text& t)
    {
        Text r;
        for (auto c : t)
            if (c == 0xDF)
                r += U"SS";
            else
                r += upper(c);
        return r;
    }
    Text lower_str(const Text& t)
    {
        Text r;
        for (auto c : t)
            r += lower(c);
        return r;
    }
    Text title_str(const Text& t)
    {
        Text r;
        for (size_t i = 0; i < t.size(); ++i)
        {
            if (!is_letter(t[i]))
                r += t[i];
            else if (i > 0 && is_letter(t[i - 1]))
                r += lower(t[i]);
            else if (t[i] == 0xDF)
                r += U"Ss";
            else
                r += title(t[i]);
        }
        return r;
    }
    Text decompose_str(const Text& t)
    {
        Text r;
        for (auto c : t)
            r += decompose(c);
        return r;
    }
    Text compose_str(const Text& t)
    {
        Text r;
        for (auto c : t)
        {
            char32_t k = r.empty() ? 0 : compose(r.back(), c);
            if (k)
                r.back() = k;
            else
                r += c;
        }
        return r;
    }
    Text map_upper(const Text& t)
    {
        Text r;
        for (auto c : t)
            r += upper(c);
        return r;
    }

    std::vector<Span> chars(const Text& t)
    {
        std::vector<Span> r;
        for (size_t i = 0; i < t.size(); ++i)
        {
            if (i == 0 || !is_mark(t[i]))
                r.push_back({i, i + 1});
            else
                r.back().end = i + 1;
        }
        return r;
    }
    std::vector<size_t> offsets(const Text& t)
    {
        std::vector<size_t> r(1, 0);
        for (auto c : t)
            r.push_back(r.back() + (c <= 0x7F ? 1 : c <= 0x7FF ? 2 : c <= 0xFFFF ? 3 : 4));
        return r;
    }
    std::pair<size_t, size_t> slice(size_t n, int64_t start, int64_t end)
    {
        auto pos = [&](int64_t i) -> size_t
        {
            if (i >= 0)
                return uint64_t(i) > n ? n : size_t(i);
            uint64_t k = uint64_t(0) - uint64_t(i);
            return k > n ? 0 : n - size_t(k);
        };
        auto s = pos(start), e = pos(end);
        return {s, e > s ? e : s};
    }
    bool ci_eq(char32_t a, char32_t b)
    {
        return upper(a) == upper(b);
    }
    std::vector<char32_t> variants(char32_t cp)
    {
        auto u = upper(cp);
        std::vector<char32_t> r(1, u);
        auto it = g_variants.find(u);
        if (it != g_variants.end())
            r.insert(r.end(), it->second.begin(), it->second.end());
        return r;
    }
}
