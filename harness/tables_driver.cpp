// Dumps every lookup of a library compiled with some generated tables.
// usage: driver OUT PAIRS   (PAIRS: lines of two hexadecimal numbers)
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
#include <Ystring/CharClass.hpp>
#include <Ystring/ConvertCase.hpp>
#include <Ystring/DecodeUtf8.hpp>
#include <Ystring/Normalize.hpp>
#include <Ystring/Utf32.hpp>
#include <Ystring/YstringException.hpp>

int main(int, char** argv)
{
    std::vector<uint32_t> out;
    out.reserve(0x110000 * 4 + 100000);
    for (char32_t c = 0; c < 0x110000; ++c)
        out.push_back(uint32_t(ystring::get_char_class(c)));
    for (char32_t c = 0; c < 0x110000; ++c)
        out.push_back(ystring::to_upper(c));
    for (char32_t c = 0; c < 0x110000; ++c)
        out.push_back(ystring::to_lower(c));
    for (char32_t c = 0; c < 0x110000; ++c)
        out.push_back(ystring::to_title(c));
    for (char32_t c = 0; c < 0x110000; ++c)
    {
        auto d = ystring::decompose(c);
        if (d.size() == 1 && d[0] == c)
            continue;
        out.push_back(c);
        out.push_back(uint32_t(d.size()));
        for (auto x : d)
            out.push_back(x);
    }
    out.push_back(0xFFFFFFFF);
    auto f = fopen(argv[2], "r");
    unsigned a, b;
    while (fscanf(f, "%x %x", &a, &b) == 2)
    {
        std::u32string r;
        try
        {
            std::u32string p = {char32_t(a), char32_t(b)};
            r = ystring::to_utf32(ystring::to_composed(ystring::from_utf32(std::u32string_view(p))));
        }
        catch (ystring::YstringException&)
        {
            r = {char32_t(0xFFFFFFFE)};
        }
        out.push_back(uint32_t(r.size()));
        for (auto x : r)
            out.push_back(x);
    }
    fclose(f);
    auto o = fopen(argv[1], "wb");
    fwrite(out.data(), 4, out.size(), o);
    fclose(o);
}
