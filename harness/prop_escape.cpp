// C21 (escaping), C22 (unescaping), C23 (incremental unescaping).
#include "common.hpp"
#include <cctype>

// ------------------------------------------------------------ generators

// Text with many special characters, sometimes any bytes.
static string gen_plain(Src& src)
{
    string s;
    switch (src.weighted({4, 2, 2}))
    {
    case 0:
        s = model::enc(gen::text(src, gen::ESCAPES | gen::ASCII));
        break;
    case 1:
        s = model::enc(gen::text(src));
        break;
    default:
        s = gen::bytes(src, gen::ESCAPES);
    }
    unsigned n = unsigned(src.choose_by(0, 12, [&]() {return src.raw(5);}));
    static const char special[] = "\"\\\b\f\n\r\t/\x1F\x7F\x80\xC3 aubx0";
    while (n--)
    {
        auto pos = src.choose(0, s.size());
        char c = src.flag(1, 2) ? char(src.choose(0, 33)) : special[src.choose(0, sizeof special - 2)];
        s.insert(pos, 1, c);
    }
    return s;
}

// -------------------------------------------------------------------- C21

static bool is_special(char c)
{
    return (unsigned char)c < 0x20 || c == '"' || c == '\\';
}

static string json_escape(string_view s)
{
    string r;
    for (char c : s)
    {
        if (!is_special(c))
        {
            r += c;
            continue;
        }
        static const char from[] = "\b\f\n\r\t\"\\", to[] = "bfnrt\"\\";
        auto p = c ? string_view(from, 7).find(c) : string::npos;
        r += '\\';
        if (p != string::npos)
            r += to[p];
        else
            r += "u00" + gen::number((unsigned char)c, 2, true);
    }
    return r;
}

// Decodes the contents of a JSON string, as RFC 8259 has them.
static std::optional<string> json_decode(string_view s)
{
    string r;
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned char c = s[i];
        if (c < 0x20 || c == '"')
            return {};
        if (c != '\\')
        {
            r += char(c);
            continue;
        }
        if (++i == s.size())
            return {};
        static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
        auto p = string_view(from, 8).find(s[i]);
        if (p != string::npos)
            r += to[p];
        else if (s[i] == 'u' && s.size() - i > 4)
        {
            uint32_t v = 0;
            for (int k = 1; k < 5; ++k)
            {
                unsigned char d = s[i + k];
                if (!isxdigit(d))
                    return {};
                v = v * 16 + (isdigit(d) ? d - '0' : (d | 0x20) - 'a' + 10);
            }
            model::put(r, v);
            i += 4;
        }
        else
            return {};
    }
    return r;
}

static void check_escape(const string& s, size_t off, Ctx& ctx)
{
    auto e = api::escape_json(s);
    gives("escape_json", e, json_escape(s));
    auto back = json_decode(e.v);
    expect(back && *back == s, "escape_json is not reversed by decoding JSON");
    gives("unescape of escape_json", api::unescape(e.v), s);
    bool any = std::any_of(s.begin(), s.end(), is_special);
    gives("has_escapable_chars", api::has_escapable_chars(s), any);
    expect((e.v != s) == any, "escaping changes a string exactly if it has escapable characters");
    size_t p = off;
    while (p < s.size() && !is_special(s[p]))
        ++p;
    auto expected = p < s.size() ? std::optional<Sub>(Sub{p, 1}) : std::nullopt;
    gives_sub("find_first_escapable_char", api::find_first_escapable_char(s, off), expected);
    if (off == 0)
        gives_sub("find_first_escapable_char without offset", api::find_first_escapable_char(s), expected);
    ctx.nontrivial = any;
}

static Property c21()
{
    Property p;
    p.id = "C21";
    p.rule = "A case is text or arbitrary bytes with control characters, quotation marks and backslashes put in, and an "
             "offset; escape_json is compared with a model, decoded by a JSON string decoder written here and by the "
             "library's unescape. Non-trivial: something must be escaped.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto s = gen_plain(src);
        auto off = src.choose_by(0, s.size(), [&]() {return src.raw(3) ? src.raw(s.size() + 1) : 0;});
        ctx.note("s", s);
        ctx.note_n("off", int64_t(off));
        check_escape(s, off, ctx);
        ctx.cls(ctx.nontrivial ? "escaped" : "unchanged");
        if (!model::valid(s))
            ctx.cls("not UTF-8");
    };
    // Every byte alone, and every pair of bytes.
    p.sweep_size = 256 + 65536;
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        string s = i < 256 ? string(1, char(i)) : string{char((i - 256) >> 8), char(i - 256)};
        ctx.note("s", s);
        for (size_t off = 0; off <= s.size(); ++off)
            check_escape(s, off, ctx);
    };
    p.sweep_text = "all strings of one and two bytes, all offsets";
    sweep_code_points(p, "escaped and searched for", [](char32_t, const Text& t)
    {
        Ctx other;
        check_escape(model::enc(t), 0, other);
        check_escape(model::enc(t) + "\\", 0, other);
    });
    p.quick_cases = 1500000;
    p.thorough_cases = 40000000;
    return p;
}

// -------------------------------------------------------------------- C22

struct Parsed
{
    bool ok = false;
    bool too_large = false;      // digits are fine, the value isn't
    size_t len = 0;              // of the sequence
    size_t first_len = 0;        // of the first half of a pair
    uint64_t cp = 0;
};

static size_t count_hex(string_view s, size_t pos, size_t max)
{
    size_t n = 0;
    while (n < max && pos + n < s.size() && isxdigit((unsigned char)s[pos + n]))
        ++n;
    return n;
}

static uint64_t value(string_view digits, unsigned base)
{
    uint64_t v = 0;
    for (unsigned char d : digits)
    {
        v = v * base + (isdigit(d) ? d - '0' : (d | 0x20) - 'a' + 10);
        if (v > UINT32_MAX)
            v = uint64_t(UINT32_MAX) + 1;
    }
    return v;
}

static bool is_high(uint64_t v) {return 0xD800 <= v && v <= 0xDBFF;}
static bool is_low(uint64_t v) {return 0xDC00 <= v && v <= 0xDFFF;}

static uint64_t combine(uint64_t h, uint64_t l) {return 0x10000 + (h - 0xD800) * 0x400 + (l - 0xDC00);}

static std::optional<char32_t> simple_escape(char c)
{
    static const char from[] = "abfnrtv", to[] = "\a\b\f\n\r\t\v";
    auto p = c ? string_view(from, 7).find(c) : string::npos;
    if (p == string::npos)
        return {};
    return char32_t(to[p]);
}

// The escape sequence starting with the backslash at pos, for unescape.
static Parsed parse_escape(string_view s, size_t pos)
{
    Parsed r;
    if (pos + 1 >= s.size())
        return r;
    char c = s[pos + 1];
    auto digits = [&](size_t from, size_t n, unsigned base)
    {
        r.ok = true;
        r.len = r.first_len = from - pos + n;
        r.cp = value(s.substr(from, n), base);
        if (r.cp > model::MAX)
            r.too_large = true;
    };
    if (c == 'x' || c == 'X')
    {
        auto n = count_hex(s, pos + 2, SIZE_MAX);
        if (n >= 2)
            digits(pos + 2, n, 16);
    }
    else if (c == 'U')
    {
        if (count_hex(s, pos + 2, 8) == 8)
            digits(pos + 2, 8, 16);
    }
    else if (c == 'u')
    {
        if (count_hex(s, pos + 2, 4) != 4)
            return r;
        digits(pos + 2, 4, 16);
        if (is_high(r.cp) && s.substr(pos + 6, 2) == "\\u" && count_hex(s, pos + 8, 4) == 4)
        {
            auto low = value(s.substr(pos + 8, 4), 16);
            if (is_low(low))
            {
                r.cp = combine(r.cp, low);
                r.len = 12;
            }
        }
    }
    else if ('0' <= c && c <= '7')
    {
        size_t n = 1;
        while (n < 3 && pos + 1 + n < s.size() && '0' <= s[pos + 1 + n] && s[pos + 1 + n] <= '7')
            ++n;
        digits(pos + 1, n, 8);
    }
    else if ((unsigned char)c < 0x80)
    {
        r.ok = true;
        r.len = r.first_len = 2;
        r.cp = simple_escape(c).value_or(char32_t(c));
    }
    return r;
}

static std::optional<string> model_unescape(string_view s, bool& pair, bool& numeric)
{
    string r;
    for (size_t i = 0; i < s.size();)
    {
        if (s[i] != '\\')
        {
            r += s[i++];
            continue;
        }
        auto p = parse_escape(s, i);
        if (!p.ok || p.too_large)
            return {};
        pair |= p.len != p.first_len;
        numeric |= p.len > 2;
        model::put(r, char32_t(p.cp));
        i += p.len;
    }
    return r;
}

static string gen_escaped(Src& src, unsigned malformed, size_t longest)
{
    string s;
    bool clean = src.flag(1, 2);
    malformed = malformed && !clean;
    auto n = src.choose_by(0, 24, [&]() {return src.raw(3) ? 1 + src.raw(4) : src.raw(25);});
    auto a = gen::alphabet(src, gen::ESCAPES | gen::ASCII, 4);
    while (n--)
    {
        switch (src.weighted({5, 2, 2, malformed}))
        {
        case 0:
        {
            auto e = gen::escape(src);
            bool b = false;
            s += clean && !model_unescape(e, b, b) ? "\\t" : e;
            break;
        }
        case 1: s += model::enc(gen::text(src, a, gen::ANY, 3).substr(0, longest)); break;
        case 2: s += gen::hex_digits(src, src.choose(1, 3)); break;
        default:
            if (src.flag(1, 2))
                s += gen::broken(src);
            else if (!s.empty())
                s.pop_back();
        }
    }
    return s;
}

static void check_finder(const string& s, std::optional<size_t> off)
{
    auto r = api::find_first_escaped_char(s, off);
    auto p = s.find('\\', off.value_or(0));
    if (p == string::npos)
    {
        gives_sub("find_first_escaped_char", r, std::nullopt);
        return;
    }
    auto e = parse_escape(s, p);
    if (!e.ok)
        throws("find_first_escaped_char of a malformed sequence", r);
    else if (e.too_large && r.threw)
        return;
    else if (!(e.len != e.first_len && !r.threw && r.v == Sub{p, e.len}))
        // Of a surrogate pair, the first half is all right.
        gives_sub("find_first_escaped_char", r, Sub{p, e.first_len});
}

static void check_unescape(const string& s, Ctx& ctx)
{
    bool pair = false, numeric = false;
    auto e = model_unescape(s, pair, numeric);
    auto r = api::unescape(s);
    size_t n = SIZE_MAX;
    auto b = api::unescape_buffer(s, &n);
    if (e)
    {
        gives("unescape", r, *e);
        gives("unescape in a buffer", b, *e);
        eq("unescaped length", n, e->size());
    }
    else
    {
        throws("unescape of a malformed sequence", r);
        throws("unescape in a buffer of a malformed sequence", b);
    }
    auto first = s.find('\\');
    auto h = api::has_escaped_chars(s);
    if (first == string::npos)
        gives("has_escaped_chars", h, false);
    else
    {
        auto f = api::find_first_escaped_char(s);
        if (f.threw)
            throws("has_escaped_chars", h);
        else
            gives("has_escaped_chars", h, true);
    }
    ctx.nontrivial = first != string::npos;
    ctx.cls(!e ? "malformed" : pair ? "with a surrogate pair" : numeric ? "with numeric escapes" : ctx.nontrivial ? "with simple escapes" : "nothing escaped");
}

static Property c22()
{
    Property p;
    p.id = "C22";
    p.rule = "A case is a mix of escape sequences of every kind (well formed, truncated, too long, too large, surrogates), "
             "hex digits, text and broken UTF-8, and an offset; unescape (string and buffer form) and the finder are "
             "compared with a parser written from the documentation. Non-trivial: there is a backslash.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto s = gen_escaped(src, unsigned(src.choose(0, 1)), SIZE_MAX);
        auto off = src.choose(0, s.size());
        ctx.note("s", s);
        ctx.note_n("off", int64_t(off));
        check_unescape(s, ctx);
        check_finder(s, {});
        check_finder(s, off);
    };
    // Backslash, any byte, and a few followers; all \u values; \x values.
    p.sweep_size = 256 * 8 + 65536 + 0x110000;
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        string s;
        if (i < 256 * 8)
        {
            static const char* const after[] = {"", "0", "7", "41", "0041", "00000041", "12345678", "g"};
            s = string("\\") + char(i >> 3) + after[i & 7];
        }
        else if (i < 256 * 8 + 65536)
        {
            auto v = i - 256 * 8;
            s = "\\u" + gen::number(v, 4, v & 1);
        }
        else
        {
            auto v = i - 256 * 8 - 65536;
            s = (v & 2 || v > 255 ? "\\U" + gen::number(v, 8, v & 1) : "\\x" + gen::number(v, 2, v & 1));
        }
        ctx.note("s", s);
        check_unescape(s, ctx);
        check_finder(s, {});
    };
    p.sweep_text = "a backslash and every byte with eight followers, every \\u value, every \\U or \\x value";
    sweep_code_points(p, "literally, and escaped by a backslash", [](char32_t c, const Text& t)
    {
        Ctx other;
        auto s = model::enc(t);
        check_unescape(s, other);
        check_unescape(s + "\\n", other);
        if (t.size() == 1)
            check_unescape("\\" + s + "0", other);
        if (t.size() == 3)
            check_unescape("\\x" + model::enc(Text{'4', c, '1'}), other);
    });
    p.quick_cases = 1500000;
    p.thorough_cases = 40000000;
    return p;
}

// -------------------------------------------------------------------- C23

struct Next
{
    enum Kind {END, VALUE, THROW, EITHER} kind;  // EITHER value or throw
    size_t start;                                // after skipped pairs
    size_t end;
    uint64_t cp;
    bool flag;
};

static Next model_next(string_view s, size_t pos)
{
    size_t p = pos;
    while (s.substr(p, 2) == "\\\n")
        p += 2;
    if (p == s.size())
        return {Next::END, p, p, 0, false};
    Next thrown{Next::THROW, p, p, 0, false};
    auto plain = [&](size_t q, bool flag) -> Next
    {
        auto u = model::at(s, q);
        return u.ok ? Next{Next::VALUE, p, q + u.len, u.cp, flag} : thrown;
    };
    if (s[p] != '\\')
        return plain(p, false);
    if (p + 1 == s.size())
        return thrown;
    char c = s[p + 1];
    if (auto v = simple_escape(c))
        return {Next::VALUE, p, p + 2, *v, true};
    auto digits = [&](size_t from, size_t n, unsigned base) -> Next
    {
        auto v = value(s.substr(from, n), base);
        return {v > model::MAX ? Next::EITHER : Next::VALUE, p, from + n, v, true};
    };
    if (c == 'x' || c == 'X')
    {
        auto n = count_hex(s, p + 2, 8);
        return n ? digits(p + 2, n, 16) : thrown;
    }
    if (c == 'U')
        return count_hex(s, p + 2, 8) == 8 ? digits(p + 2, 8, 16) : thrown;
    if (c == 'u')
    {
        if (count_hex(s, p + 2, 4) != 4)
            return thrown;
        auto r = digits(p + 2, 4, 16);
        if (!is_high(r.cp) || s.substr(p + 6, 2) != "\\u")
            return r;
        if (count_hex(s, p + 8, 4) != 4)
        {
            // A lone surrogate before a malformed escape.
            r.kind = Next::EITHER;
            return r;
        }
        auto low = value(s.substr(p + 8, 4), 16);
        if (!is_low(low))
            return r;
        return {Next::VALUE, p, p + 12, combine(r.cp, low), true};
    }
    if ('0' <= c && c <= '7')
    {
        size_t n = 1;
        while (n < 3 && p + 1 + n < s.size() && '0' <= s[p + 1 + n] && s[p + 1 + n] <= '7')
            ++n;
        return digits(p + 1, n, 8);
    }
    return plain(p + 1, true);
}

static void check_steps(const string& s, bool want_flag, Ctx& ctx)
{
    size_t pos = 0, steps = 0;
    while (true)
    {
        auto e = model_next(s, pos);
        string_view rest = string_view(s).substr(pos);
        auto r = api::unescape_next(rest, want_flag);
        auto where = "unescape_next at " + std::to_string(pos) + ": ";
        size_t now = pos + r.v.pos;
        if (!rest.empty() || r.v.end)
            expect(pos + r.v.end == s.size(), "unescape_next moved the end of the view");
        if (r.threw)
        {
            if (e.kind != Next::THROW && e.kind != Next::EITHER)
                fail(where + "YstringException");
            if (now != e.start && now != pos)
                fail(where + "the view starts at " + show(now) + " after the exception, expected " + show(e.start));
            ctx.cls("ends with an exception");
            if (steps)
                ctx.cls("exception after progress");
            return;
        }
        if (e.kind == Next::THROW)
            fail(where + "got " + show(r.v.cp) + ", expected YstringException");
        if (e.kind == Next::END)
        {
            if (r.v.cp)
                fail(where + "got " + show(r.v.cp) + ", expected nothing");
            if (now != s.size())
                fail(where + "bytes are left at the end");
        }
        else
        {
            if (!r.v.cp || *r.v.cp != e.cp)
                fail(where + "got " + show(r.v.cp) + ", expected " + show(char32_t(e.cp)));
            if (now != e.end)
                fail(where + "the view starts at " + show(now) + ", expected " + show(e.end));
        }
        if (want_flag && r.v.flag != (e.kind != Next::END && e.flag))
            fail(where + "did_unescape is " + show(r.v.flag));
        if (e.start != pos)
            ctx.cls("skipped backslash-newline");
        if (e.kind == Next::END)
            return;
        pos = now;
        // Each step looks at all of the rest: on to the end of a long string.
        if (++steps == 1000 && s.size() - pos > 2000)
            pos = s.size() - 1000;
    }
}

static Property c23()
{
    Property p;
    p.id = "C23";
    p.rule = "A case is a mix of escape sequences of every kind, backslash-newline pairs, hex digits, text and broken "
             "UTF-8; unescape_next is called until it returns nothing or throws, and each result, the flag and the "
             "remaining view are compared with a parser written from the documentation. Non-trivial: there is a "
             "backslash.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto s = gen_escaped(src, src.flag(1, 3), src.flag(1, 50) ? 500 : 30);
        bool want = src.flag(3, 4);
        ctx.note("s", s);
        ctx.note_n("flag", want);
        ctx.nontrivial = s.find('\\') != string::npos;
        check_steps(s, want, ctx);
    };
    p.sweep_size = 256 * 8 * 2 + 65536;
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        string s;
        if (i < 256 * 8 * 2)
        {
            static const char* const after[] = {"", "0", "7", "41", "0041", "00000041", "12345678", "g"};
            s = string("\\") + char(i >> 4) + after[i & 7] + (i & 8 ? "1" : "");
        }
        else
        {
            auto v = i - 256 * 8 * 2;
            s = "\\u" + gen::number(v, 4, v & 1) + (v & 2 ? "\\n" : "");
        }
        ctx.note("s", s);
        check_steps(s, true, ctx);
    };
    p.sweep_text = "a backslash and every byte with sixteen followers, every \\u value";
    sweep_code_points(p, "read literally, and escaped by a backslash", [](char32_t, const Text& t)
    {
        Ctx other;
        auto s = model::enc(t);
        check_steps(s + "\\t", true, other);
        if (t.size() < 3)
            check_steps("\\" + s, true, other);
    });
    p.quick_cases = 500000;
    p.thorough_cases = 40000000;
    return p;
}

Property pbt::make_property()
{
    load_model();
    string id = getenv("PBT_PROPERTY");
    return placed(id == "C21" ? c21() : id == "C22" ? c22() : c23());
}
