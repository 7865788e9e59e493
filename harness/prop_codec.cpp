// C01 decoding, C02 encoding and UTF-32, C03 validity and repair, C04 skipping
#include "common.hpp"

static api::It gen_it(Src& src, Ctx& ctx, const string& s)
{
    auto k = src.weighted({6, 2, 1, 2});
    if (k == 2 && s.size() > 24)
        k = 0;      // lists are slow
    ctx.mix_u64(k);
    return api::It(k);
}

static void check_decode_at(const string& s, size_t pos, api::It it)
{
    auto u = model::at(s, pos);
    auto p = std::to_string(pos);
    auto r = api::decode_next(s, pos, it);
    if (r.threw || r.v.cp != u.cp || r.v.pos != pos + u.len)
        fail("decode_next at " + p + " of " + show(s) + ": got " + show(r.v.cp) + " and cursor " + show(r.v.pos)
             + ", expected " + show(u.cp) + " and " + show(pos + u.len));
    r = api::safe_decode_next(s, pos, it);
    bool end = pos == s.size();
    if (end ? r.threw || r.v.ok || r.v.pos != pos
            : u.ok ? r.threw || !r.v.ok || r.v.cp != u.cp || r.v.pos != pos + u.len
                   : !r.threw || r.v.pos != pos)
        fail("safe_decode_next at " + p + " of " + show(s));

    auto b = model::before(s, pos);
    r = api::decode_prev(s, pos, it);
    if (r.threw || r.v.cp != b.cp || r.v.pos != pos - b.len)
        fail("decode_prev at " + p + " of " + show(s) + ": got " + show(r.v.cp) + " and cursor " + show(r.v.pos)
             + ", expected " + show(b.cp) + " and " + show(pos - b.len));
    r = api::safe_decode_prev(s, pos, it);
    if (pos == 0 ? r.threw || r.v.ok || r.v.pos != pos
                 : b.ok ? r.threw || !r.v.ok || r.v.cp != b.cp || r.v.pos != pos - b.len
                        : !r.threw || r.v.pos != pos)
        fail("safe_decode_prev at " + p + " of " + show(s));
}

static void check_pop(const string& s)
{
    auto u = model::at(s, 0);
    auto r = api::pop_utf8_codepoint(s);
    if (s.empty() ? r.threw || r.v.cp || r.v.pos != r.v.end
                  : u.ok ? r.threw || r.v.cp != std::optional(u.cp) || r.v.pos != u.len || r.v.end != s.size()
                         : !r.threw || r.v.pos != 0 || r.v.end != s.size())
        fail("pop_utf8_codepoint of " + show(s) + " gave " + show(r.v.cp) + " and view "
             + show(r.v.pos) + " to " + show(r.v.end) + (r.threw ? " (threw)" : ""));
    auto b = model::before(s, s.size());
    r = api::pop_last_utf8_codepoint(s);
    if (s.empty() ? r.threw || r.v.cp || r.v.pos != r.v.end
                  : b.ok ? r.threw || r.v.cp != std::optional(b.cp) || r.v.end != s.size() - b.len
                           || (r.v.pos != 0 && r.v.pos != r.v.end)
                         : !r.threw || r.v.pos != 0 || r.v.end != s.size())
        fail("pop_last_utf8_codepoint of " + show(s) + " gave " + show(r.v.cp) + " and view "
             + show(r.v.pos) + " to " + show(r.v.end) + (r.threw ? " (threw)" : ""));
}

static void check_units(const string& s, api::It it)
{
    auto units = model::units(s);
    size_t pos = 0;
    for (auto& u : units)
    {
        auto r = api::skip_next(s, pos, it);
        if (r.threw || !r.v.ok || r.v.pos != u.pos + u.len)
            fail("skip_next at " + show(pos) + " of " + show(s) + ": got cursor " + show(r.v.pos)
                 + ", expected " + show(u.pos + u.len));
        pos = r.v.pos;
    }
    auto e = api::skip_next(s, pos, it);
    if (e.threw || e.v.ok || e.v.pos != pos)
        fail("skip_next at the end of " + show(s));
    for (auto i = units.rbegin(); i != units.rend(); ++i)
    {
        auto r = api::skip_prev(s, pos, it);
        if (r.threw || !r.v.ok || r.v.pos != i->pos)
            fail("skip_prev at " + show(pos) + " of " + show(s) + ": got cursor " + show(r.v.pos)
                 + ", expected " + show(i->pos));
        pos = r.v.pos;
    }
    e = api::skip_prev(s, pos, it);
    if (e.threw || e.v.ok || e.v.pos != pos)
        fail("skip_prev at the start of " + show(s));

    auto r = api::remove_utf8_codepoint(s);
    if (r.threw || r.v.ok != !s.empty() || r.v.end != s.size()
        || r.v.pos != (s.empty() ? 0 : units[0].len))
        fail("remove_utf8_codepoint of " + show(s) + ": view " + show(r.v.pos) + " to " + show(r.v.end));
    r = api::remove_last_utf8_codepoint(s);
    if (r.threw || r.v.ok != !s.empty()
        || r.v.end != (s.empty() ? 0 : units.back().pos)
        || (r.v.pos != 0 && r.v.pos != r.v.end))
        fail("remove_last_utf8_codepoint of " + show(s) + ": view " + show(r.v.pos) + " to " + show(r.v.end));

    auto n = api::count_codepoints(s);
    if (model::valid(s))
        gives("count_codepoints", n, units.size());
    else
        throws("count_codepoints of invalid UTF-8", n);
}

static const unsigned char REP[] = {
    0x41, 0x80, 0xC3, 0xE2, 0xF0, 0xBF, 0x00, 0x7F, 0xC0, 0xDF, 0xE0, 0xEF, 0xF4, 0xF7, 0xF8, 0xFF};

static string sweep_string(uint64_t i)
{
    // All strings over REP, shortest first.
    uint64_t n = 1, len = 0;
    while (i >= n)
    {
        i -= n;
        n *= 16;
        ++len;
    }
    string s;
    for (; len; --len, i /= 16)
        s += char(REP[i % 16]);
    return s;
}

static uint64_t sweep_count(unsigned len)
{
    uint64_t r = 0, n = 1;
    for (unsigned i = 0; i <= len; ++i, n *= 16)
        r += n;
    return r;
}

static bool mixed(const string& s)
{
    bool multi = false, bad = false;
    for (auto& u : model::units(s))
    {
        multi = multi || u.len > 1;
        bad = bad || !u.ok;
    }
    return multi || bad;
}

static void classify(Ctx& ctx, const string& s)
{
    bool ok = true, multi = false;
    for (auto& u : model::units(s))
    {
        ok = ok && u.ok;
        multi = multi || u.len > 1;
    }
    ctx.cls(s.empty() ? "empty" : ok ? (multi ? "valid, multi-byte" : "ASCII") : "undecodable somewhere");
    if (s.size() > 64)
        ctx.cls("longer than 64 bytes");
}

static Property c01()
{
    Property p;
    p.id = "C01";
    p.rule = "A case is a byte string mixing encoded code points, truncated, overlong and stray sequences; "
             "all cursor positions (at most 10) are decoded in both directions through pointer, string, list and "
             "unsigned byte iterators and compared with a decoder written independently. Non-trivial: the string "
             "contains a multi-byte or an undecodable unit.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto s = gen::bytes(src);
        ctx.note("s", s);
        auto it = gen_it(src, ctx, s);
        ctx.nontrivial = mixed(s);
        classify(ctx, s);
        if (s.size() <= 10)
            for (size_t i = 0; i <= s.size(); ++i)
                check_decode_at(s, i, it);
        else
            for (int i = 0; i < 10; ++i)
                check_decode_at(s, src.choose(0, s.size()), it);
        check_pop(s);
        auto cut = src.choose(0, s.size());
        check_pop(s.substr(cut));
        check_pop(s.substr(0, cut));
    };
    p.sweep_size = sweep_count(pbt::is_thorough() ? 5 : 4);
    p.sweep_text = "all byte strings of up to 4 (thorough: 5) bytes over 16 representative bytes, all positions";
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        auto s = sweep_string(i);
        ctx.nontrivial = mixed(s);
        for (size_t k = 0; k <= s.size(); ++k)
            check_decode_at(s, k, api::It::PTR);
        check_pop(s);
    };
    sweep_code_points(p, "decoded in both directions", [](char32_t, const Text& t)
    {
        auto s = model::enc(t);
        check_decode_at(s, 0, api::It::PTR);
        check_decode_at(s, s.size(), api::It::PTR);
        if (t.size() > 1)
            check_decode_at(s, model::enc(t[0]).size(), api::It::PTR);
        check_pop(s);
    });
    p.quick_cases = 1000000;
    p.thorough_cases = 40000000;
    return p;
}

static void check_code_point(char32_t c, bool deep)
{
    auto e = model::enc(c);
    gives("from_utf32(code point)", api::from_utf32(c), e);
    gives("to_utf32", api::to_utf32(e), Text(1, c));
    gives("append(view)", api::append("", c), e);
    if (deep)
    {
        gives("from_utf32(string)", api::from_utf32(std::u32string_view(&c, 1)), e);
        gives("append", api::append_in_place("x", c), "x" + e);
    }
}

static Property c02()
{
    Property p;
    p.id = "C02";
    p.rule = "A case is a text (list of code points), a byte string and a value appended to them; conversions are "
             "compared with an independent encoder/decoder. Non-trivial: the text has a code point of more than one "
             "byte and at least two code points, or the byte string is undecodable.";
    p.run = [](Src& src, Ctx& ctx)
    {
        if (src.flag(1, 3))
        {
            auto s = gen::bytes(src);
            ctx.note("bytes", s);
            classify(ctx, s);
            auto t = model::decode(s);
            ctx.nontrivial = !t;
            auto r = api::to_utf32(s);
            if (t)
                gives("to_utf32", r, *t);
            else
                throws("to_utf32 of invalid UTF-8", r);
            // Appending doesn't look at the string.
            auto c = gen::cp(src);
            ctx.note_cp("c", c);
            gives("append", api::append_in_place(s, c), s + model::enc(c));
            gives("append(view)", api::append(s, c), s + model::enc(c));
            return;
        }
        auto t = gen::text(src);
        ctx.note("text", t);
        auto e = model::enc(t);
        classify(ctx, e);
        ctx.nontrivial = t.size() >= 2 && e.size() > t.size();
        gives("from_utf32", api::from_utf32(std::u32string_view(t)), e);
        gives("to_utf32", api::to_utf32(e), t);
        if (src.flag(1, 4))
        {
            auto b = gen::big(src);
            ctx.note_cp("big", b);
            if (b > model::MAX)
            {
                ctx.cls("appending a value above U+10FFFF");
                string after;
                throws("append of a too large value", api::append_in_place(e, b, &after));
                eq("the string after a failed append", after, e);
                throws("append(view) of a too large value", api::append(e, b));
            }
        }
        else
        {
            // Appending code points one by one.
            string s;
            for (auto c : t.substr(0, 20))
            {
                auto r = api::append_in_place(s, c);
                expect(!r.threw, "append threw");
                s = r.v;
            }
            eq("appended code points", s, model::enc(t.substr(0, 20)));
        }
    };
    p.sweep_size = 0x110000;
    p.sweep_text = "all code points U+0000 to U+10FFFF, each converted both ways and appended";
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        ctx.nontrivial = i >= 0x80;
        check_code_point(char32_t(i), i % 16 == 0 || pbt::is_thorough());
    };
    p.quick_cases = 600000;
    p.thorough_cases = 25000000;
    return p;
}

static void check_repair(const string& s, std::optional<char32_t> c)
{
    bool ok = model::valid(s);
    gives("is_valid_utf8", api::is_valid_utf8(s), ok);
    string e, repl = model::enc(c.value_or(0xFFFD));
    for (auto& u : model::units(s))
        e += u.ok ? s.substr(u.pos, u.len) : repl;
    auto r = api::replace_invalid_utf8(s, c);
    gives("replace_invalid_utf8", r, e);
    gives("replace_invalid_utf8 (in place)", api::replace_invalid_utf8_in_place(s, c), e);
    gives("is_valid_utf8 of the repaired string", api::is_valid_utf8(r.v), true);
    gives("replace_invalid_utf8 a second time", api::replace_invalid_utf8(r.v, c), r.v);
}

static Property c03()
{
    Property p;
    p.id = "C03";
    p.rule = "A case is a byte string and a replacement code point (or the default); validity and the repaired "
             "string are compared with a partition of the bytes into units made independently. Non-trivial: the "
             "string is invalid.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto s = gen::bytes(src);
        ctx.note("s", s);
        std::optional<char32_t> c;
        if (src.flag(1, 2))
            c = gen::cp(src);
        ctx.note_cp("c", c.value_or(0xFFFFFFFF));
        ctx.nontrivial = !model::valid(s);
        classify(ctx, s);
        check_repair(s, c);
    };
    p.sweep_size = sweep_count(pbt::is_thorough() ? 5 : 4);
    p.sweep_text = "all byte strings of up to 4 (thorough: 5) bytes over 16 representative bytes";
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        auto s = sweep_string(i);
        ctx.nontrivial = !model::valid(s);
        check_repair(s, {});
    };
    sweep_code_points(p, "valid, and left as it is or (next to a stray byte) repaired around and by it", [](char32_t c, const Text& t)
    {
        auto s = model::enc(t);
        check_repair(s, {});
        if (t.size() == 1)
        {
            check_repair("\xBF" + s + "\xE2\x82", {});
            check_repair("a\xF0", c);
        }
    });
    p.quick_cases = 1500000;
    p.thorough_cases = 60000000;
    return p;
}

static Property c04()
{
    Property p;
    p.id = "C04";
    p.rule = "A case is a byte string; it is walked from both ends by skipping (four kinds of iterators), its first "
             "and last unit are removed and its code points counted, all compared with an independent partition. "
             "Non-trivial: the string contains a multi-byte or an undecodable unit.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto s = src.flag(1, 4) ? model::enc(gen::text(src)) : gen::bytes(src);
        ctx.note("s", s);
        if (s.size() > 300)
            s.resize(300);
        auto it = gen_it(src, ctx, s);
        ctx.nontrivial = mixed(s);
        classify(ctx, s);
        check_units(s, it);
    };
    p.sweep_size = sweep_count(pbt::is_thorough() ? 5 : 4);
    p.sweep_text = "all byte strings of up to 4 (thorough: 5) bytes over 16 representative bytes";
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        auto s = sweep_string(i);
        ctx.nontrivial = mixed(s);
        check_units(s, api::It::PTR);
    };
    sweep_code_points(p, "skipped, removed and counted", [](char32_t, const Text& t)
    {
        check_units(model::enc(t), api::It::PTR);
    });
    p.quick_cases = 1200000;
    p.thorough_cases = 50000000;
    return p;
}

Property pbt::make_property()
{
    load_model();
    string id = getenv("PBT_PROPERTY");
    return placed(id == "C01" ? c01() : id == "C02" ? c02() : id == "C03" ? c03() : c04());
}
