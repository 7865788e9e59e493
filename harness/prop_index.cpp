// C09 characters, C10 code point indexes, C11 substrings, C12 insert/replace
#include "common.hpp"

// A text as elements (characters or code points) with byte offsets.
struct Elements
{
    std::vector<size_t> off;      // of each element, and the size
    size_t n() const {return off.size() - 1;}
    size_t size() const {return off.back();}
};

static Elements elements(const Text& t, bool characters)
{
    auto o = model::offsets(t);
    if (!characters)
        return {o};
    Elements e;
    for (auto& c : model::chars(t))
        e.off.push_back(o[c.begin]);
    e.off.push_back(o.back());
    return e;
}

// The element index at which an insertion at index i takes place.
static std::optional<size_t> position(size_t n, int64_t i)
{
    if (i >= 0)
        return uint64_t(i) <= n ? std::optional<size_t>(size_t(i)) : std::nullopt;
    auto k = uint64_t(0) - uint64_t(i);
    return k <= n ? std::optional<size_t>(n - size_t(k)) : std::nullopt;
}

static void classify_index(Ctx& ctx, const char* sign, size_t n, int64_t i)
{
    (void)sign;
    if (i >= 0)
        ctx.cls(uint64_t(i) < n ? "index from the start" : uint64_t(i) == n ? "index at the end" : "index beyond the end");
    else
        ctx.cls(position(n, i) ? "index from the end" : "index before the start");
}

static Text char_text(Src& src, Ctx& ctx)
{
    auto t = gen::text(src, src.flag(1, 4) ? gen::ANY : gen::MARKS | gen::ASCII | gen::LETTERS);
    ctx.note("t", t);
    size_t marks = 0;
    bool lead = !t.empty() && model::is_mark(t[0]), run = false;
    for (size_t i = 0; i < t.size(); ++i)
    {
        marks += model::is_mark(t[i]);
        run = run || (i > 1 && model::is_mark(t[i]) && model::is_mark(t[i - 1]));
    }
    ctx.cls(t.empty() ? "empty" : lead ? "starts with a mark" : run ? "several marks in a row" : marks ? "single marks" : "no marks");
    return t;
}

static bool has_mark(const Text& t)
{
    return std::any_of(t.begin(), t.end(), model::is_mark);
}

static Property c09()
{
    Property p;
    p.id = "C09";
    p.rule = "A case is a text rich in combining marks (leading, in runs, none); count, every next/previous range at "
             "character boundaries, positions and ranges of several indexes, the covering walk and reverse are "
             "compared with a partition of the code point list. One case in six is invalid UTF-8, which has to throw "
             "where it must be read. Non-trivial: the text has a mark and two characters, or is invalid UTF-8.";
    p.run = [](Src& src, Ctx& ctx)
    {
        if (src.flag(1, 6))
        {
            auto s = gen::bytes(src, gen::MARKS | gen::ASCII);
            ctx.note("s", s);
            auto valid = model::valid(s);
            ctx.nontrivial = !valid;
            if (!valid)
            {
                ctx.cls("invalid UTF-8");
                throws("count_chars of invalid UTF-8", api::count_chars(s));
                throws("reverse of invalid UTF-8", api::reverse(s));
                // Characters before the first undecodable position are found;
                // beyond it nothing can be.
                auto bad = size_t(0);
                Text pre;
                for (auto& u : model::units(s))
                {
                    if (!u.ok)
                        break;
                    pre += u.cp;
                    bad += u.len;
                }
                auto cs = model::chars(pre);
                auto o = model::offsets(pre);
                bool overlong = model::enc(pre) != s.substr(0, bad);
                auto i = src.choose(0, pre.size() + 3);
                ctx.note_n("i", int64_t(i));
                auto r = api::get_char_range(s, int64_t(i));
                if (i + 1 < cs.size() && !overlong)
                    gives("get_char_range before invalid UTF-8", r, Sub{o[cs[i].begin], o[cs[i].end] - o[cs[i].begin]});
                else if (i + 1 >= cs.size())
                    throws("get_char_range reaching invalid UTF-8", r);
                auto q = api::get_char_pos(s, int64_t(i));
                if (i < cs.size() && !overlong)
                    gives("get_char_pos before invalid UTF-8", q, o[cs[i].begin]);
                else if (i > cs.size())
                    throws("get_char_pos reaching invalid UTF-8", q);
                throws("get_next_char_range at invalid UTF-8", api::get_next_char_range(s, bad));
            }
            return;
        }
        auto t = char_text(src, ctx);
        auto s = model::enc(t);
        auto e = elements(t, true);
        auto n = e.n();
        ctx.nontrivial = has_mark(t) && n > 1;

        gives("count_chars", api::count_chars(s), n);
        size_t step = n > 24 ? 1 + n / 12 : 1;
        for (size_t k = 0; k < n; k += step)
        {
            gives("get_next_char_range", api::get_next_char_range(s, e.off[k]), Sub{e.off[k], e.off[k + 1] - e.off[k]});
            gives("get_prev_char_range", api::get_prev_char_range(s, e.off[k + 1]), Sub{e.off[k], e.off[k + 1] - e.off[k]});
        }
        gives_sub("get_next_char_range at the end", api::get_next_char_range(s, s.size()), {});
        gives_sub("get_prev_char_range at the start", api::get_prev_char_range(s, 0), {});
        for (int k = 0; k < 4; ++k)
        {
            auto i = gen::index(src, n);
            ctx.note_n("i", i);
            classify_index(ctx, "", n, i);
            auto pos = position(n, i);
            gives("get_char_pos", api::get_char_pos(s, i), pos ? e.off[*pos] : SIZE_MAX);
            gives_sub("get_char_range", api::get_char_range(s, i),
                      pos && *pos < n ? std::optional(Sub{e.off[*pos], e.off[*pos + 1] - e.off[*pos]}) : std::nullopt);
        }
        string rev;
        for (size_t k = n; k > 0; --k)
            rev += s.substr(e.off[k - 1], e.off[k] - e.off[k - 1]);
        auto r = api::reverse(s);
        gives("reverse", r, rev);
        if (t.empty() || !model::is_mark(t[0]))
            gives("reverse of reverse", api::reverse(r.v), s);
    };
    sweep_code_points(p, "counted, walked over and reversed", [](char32_t, const Text& t)
    {
        auto s = model::enc(t);
        auto e = elements(t, true);
        auto n = e.n();
        gives("count_chars", api::count_chars(s), n);
        string rev;
        for (size_t k = n; k-- > 0;)
        {
            Sub r{e.off[k], e.off[k + 1] - e.off[k]};
            rev += s.substr(r.off, r.len);
            gives("get_next_char_range", api::get_next_char_range(s, r.off), r);
            gives("get_prev_char_range", api::get_prev_char_range(s, r.off + r.len), r);
            gives_sub("get_char_range", api::get_char_range(s, int64_t(k)), r);
            gives_sub("get_char_range", api::get_char_range(s, int64_t(k) - int64_t(n)), r);
        }
        for (size_t k = 0; k <= n; ++k)
            gives("get_char_pos", api::get_char_pos(s, int64_t(k)), e.off[k]);
        gives("reverse", api::reverse(s), rev);
    });
    p.quick_cases = 700000;
    p.thorough_cases = 40000000;
    return p;
}

static Property c10()
{
    Property p;
    p.id = "C10";
    p.rule = "A case is a text and several indexes, most of them within or near its length, some at the limits of "
             "ptrdiff_t; get_codepoint and get_codepoint_pos are compared with the code point list. Non-trivial: the "
             "text has a multi-byte code point and at least two code points.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto t = gen::text(src);
        ctx.note("t", t);
        auto s = model::enc(t);
        auto e = elements(t, false);
        auto n = e.n();
        ctx.nontrivial = n > 1 && s.size() > n;
        ctx.cls(n == 0 ? "empty" : s.size() == n ? "ASCII" : s.size() == 4 * n ? "four bytes only" : "mixed");
        for (int k = 0; k < 8; ++k)
        {
            auto i = gen::index(src, n);
            ctx.note_n("i", i);
            classify_index(ctx, "", n, i);
            auto pos = position(n, i);
            // The end is a position when counted from the start only.
            gives("get_codepoint_pos", api::get_codepoint_pos(s, i), pos ? e.off[*pos] : SIZE_MAX);
            auto r = api::get_codepoint(s, i);
            if (pos && *pos < n)
                gives("get_codepoint", r, Hit{{e.off[*pos], e.off[*pos + 1] - e.off[*pos]}, t[*pos]});
            else if (r.threw || r.v.sub.len != 0 || r.v.cp != model::INVALID)
                fail("get_codepoint: got " + show(r) + ", expected nothing");
        }
    };
    sweep_code_points(p, "at every index", [](char32_t, const Text& t)
    {
        auto s = model::enc(t);
        auto e = elements(t, false);
        auto n = int64_t(e.n());
        for (int64_t i = -n - 1; i <= n + 1; ++i)
        {
            auto pos = position(e.n(), i);
            gives("get_codepoint_pos", api::get_codepoint_pos(s, i), pos ? e.off[*pos] : SIZE_MAX);
            auto r = api::get_codepoint(s, i);
            if (pos && *pos < e.n())
                gives("get_codepoint", r, Hit{{e.off[*pos], e.off[*pos + 1] - e.off[*pos]}, t[*pos]});
            else if (r.threw || r.v.sub.len != 0 || r.v.cp != model::INVALID)
                fail("get_codepoint: got " + show(r) + ", expected nothing");
        }
    });
    p.quick_cases = 1500000;
    p.thorough_cases = 60000000;
    return p;
}

static void check_substring(const string& s, const Elements& e, bool characters, int64_t start, std::optional<int64_t> end)
{
    auto [b, f] = model::slice(e.n(), start, end.value_or(INT64_MAX));
    auto r = characters ? api::get_char_substring(s, start, end) : api::get_codepoint_substring(s, start, end);
    gives_view(characters ? "get_char_substring" : "get_codepoint_substring", r, e.off[b], e.off[f] - e.off[b]);
}

static Property c11()
{
    Property p;
    p.id = "C11";
    p.rule = "A case is a text and several pairs of indexes (or a missing end) of any sign and size, most of them near "
             "the length; both kinds of substring are compared with slices of the element list. Non-trivial: some "
             "slice is neither empty nor everything.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto t = char_text(src, ctx);
        auto s = model::enc(t);
        for (bool characters : {true, false})
        {
            auto e = elements(t, characters);
            for (int k = 0; k < 4; ++k)
            {
                auto a = gen::index(src, e.n());
                auto b = gen::opt_index(src, e.n());
                ctx.note_n("start", a);
                if (b)
                    ctx.note_n("end", *b);
                else
                    ctx.note("end", "none");
                ctx.cls(!b ? (a < 0 ? "start < 0, no end" : "no end")
                        : a < 0 ? (*b < 0 ? "start < 0, end < 0" : "start < 0, end >= 0")
                                : (*b < 0 ? "start >= 0, end < 0" : "start >= 0, end >= 0"));
                auto [x, y] = model::slice(e.n(), a, b.value_or(INT64_MAX));
                ctx.nontrivial = ctx.nontrivial || (y > x && y - x < e.n());
                check_substring(s, e, characters, a, b);
            }
        }
    };
    p.sweep_size = 6 * 6 * 6 * 6;
    p.sweep_text = "256 texts of four elements drawn from six of different encoded length (with and without marks), every "
                   "pair of indexes from -7 to 7";
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        static const char32_t a[] = {'a', 0xE6, 0x20AC, 0x1F600, 0x301, 0x1D165};
        Text t;
        auto j = i;
        for (int k = 0; k < 4; ++k, j /= 6)
            t += a[j % 6];
        t.resize(1 + i % 4);
        auto s = model::enc(t);
        ctx.nontrivial = true;
        for (bool characters : {true, false})
        {
            auto e = elements(t, characters);
            for (int64_t x = -7; x <= 7; ++x)
                for (int64_t y = -7; y <= 7; ++y)
                    check_substring(s, e, characters, x, y);
        }
    };
    sweep_code_points(p, "in substrings counted from the start and the end", [](char32_t, const Text& t)
    {
        auto s = model::enc(t);
        for (bool characters : {true, false})
        {
            auto e = elements(t, characters);
            auto n = int64_t(e.n());
            check_substring(s, e, characters, 1, {});
            check_substring(s, e, characters, -1, {});
            check_substring(s, e, characters, 0, n - 1);
            check_substring(s, e, characters, -n, -1);
            check_substring(s, e, characters, 1, 2);
        }
    });
    p.quick_cases = 700000;
    p.thorough_cases = 40000000;
    return p;
}

// On arbitrary bytes the indexed position is the one the position and
// substring functions report, whatever it is.
static void splice_bytes(Src& src, Ctx& ctx)
{
    auto s = gen::bytes(src), ins = src.flag(1, 2) ? gen::bytes(src) : model::enc(gen::text(src, gen::ANY, 2));
    ctx.note("s", s);
    ctx.note("ins", ins);
    auto c = gen::cp(src, gen::MARKS);
    ctx.note_cp("c", c);
    ctx.cls(model::valid(s) ? "bytes that are valid" : "invalid bytes");
    auto n = model::units(s).size();
    for (bool characters : {true, false})
    {
        auto i = gen::index(src, n);
        ctx.note_n("i", i);
        auto pos = characters ? api::get_char_pos(s, i) : api::get_codepoint_pos(s, i);
        auto r = characters ? api::insert_chars(s, i, ins) : api::insert_codepoints(s, i, ins);
        auto q = characters ? api::insert_char(s, i, c) : api::insert_codepoint(s, i, c);
        if (pos.threw || pos.v > s.size())
        {
            if (!ins.empty())
                throws(characters ? "insert_chars where there is no position" : "insert_codepoints where there is no position", r);
            else if (!r.threw)
                gives("inserting nothing", r, s);
            throws(characters ? "insert_char where there is no position" : "insert_codepoint where there is no position", q);
        }
        else
        {
            ctx.nontrivial = ctx.nontrivial || (pos.v > 0 && pos.v < s.size());
            gives(characters ? "insert_chars" : "insert_codepoints", r,
                  s.substr(0, pos.v) + ins + s.substr(pos.v));
            gives(characters ? "insert_char" : "insert_codepoint", q,
                  s.substr(0, pos.v) + model::enc(c) + s.substr(pos.v));
        }
        auto a = gen::index(src, n), b = gen::index(src, n);
        ctx.note_n("start", a);
        ctx.note_n("end", b);
        auto sub = characters ? api::get_char_substring(s, a, b) : api::get_codepoint_substring(s, a, b);
        auto z = characters ? api::replace_chars(s, a, b, ins) : api::replace_codepoints(s, a, b, ins);
        if (sub.threw)
            throws(characters ? "replace_chars where there is no substring" : "replace_codepoints where there is no substring", z);
        else
        {
            auto [x, len] = sub.v;
            if (x > s.size())
                continue;              // an empty substring elsewhere
            ctx.nontrivial = ctx.nontrivial || (len && len < s.size());
            gives(characters ? "replace_chars" : "replace_codepoints", z, s.substr(0, x) + ins + s.substr(x + len));
        }
    }
}

static Property c12()
{
    Property p;
    p.id = "C12";
    p.rule = "A case is a text, an insertion (also empty, also starting with a mark, one in twelve a value above "
             "U+10FFFF) and indexes of any sign and size; the six functions are compared with splicing the element "
             "list. In one case in eight the string is arbitrary bytes, and the position or range the one that the "
             "position and substring functions report. Non-trivial: an insertion position lies inside the text, or the replaced range is neither empty "
             "nor everything.";
    p.run = [](Src& src, Ctx& ctx)
    {
        if (src.flag(1, 8))
            return splice_bytes(src, ctx);
        auto t = char_text(src, ctx);
        auto s = model::enc(t);
        auto a = gen::alphabet(src, gen::ANY);
        auto inserted = gen::text(src, a, gen::ANY, 2);
        if (t.size() < 300)
            gen::lengthen(src, inserted, a);
        auto ins = model::enc(inserted);
        if (src.flag(1, 10))
            ins = gen::bytes(src);         // inserted bytes are not examined
        ctx.note("ins", ins);
        auto c = gen::cp(src, gen::MARKS);
        ctx.note_cp("c", c);
        auto big = src.flag(1, 12) ? gen::big(src) : 0;
        ctx.note_cp("big", big);
        for (bool characters : {true, false})
        {
            auto e = elements(t, characters);
            auto n = e.n();
            for (int k = 0; k < 2; ++k)
            {
                auto i = gen::index(src, n);
                ctx.note_n("i", i);
                classify_index(ctx, "", n, i);
                auto pos = position(n, i);
                auto splice = [&](const string& x) {return s.substr(0, e.off[*pos]) + x + s.substr(e.off[*pos]);};
                ctx.nontrivial = ctx.nontrivial || (pos && *pos > 0 && *pos < n);
                auto r = characters ? api::insert_chars(s, i, ins) : api::insert_codepoints(s, i, ins);
                auto q = characters ? api::insert_char(s, i, c) : api::insert_codepoint(s, i, c);
                if (pos)
                {
                    gives(characters ? "insert_chars" : "insert_codepoints", r, splice(ins));
                    gives(characters ? "insert_char" : "insert_codepoint", q, splice(model::enc(c)));
                }
                else
                {
                    if (!ins.empty())
                        throws(characters ? "insert_chars out of bounds" : "insert_codepoints out of bounds", r);
                    else if (!r.threw)
                        gives("inserting nothing", r, s);
                    throws(characters ? "insert_char out of bounds" : "insert_codepoint out of bounds", q);
                }
                if (big > model::MAX)
                {
                    ctx.cls("inserting a value above U+10FFFF");
                    throws(characters ? "insert_char of a too large value" : "insert_codepoint of a too large value",
                           characters ? api::insert_char(s, i, big) : api::insert_codepoint(s, i, big));
                }
                auto a = gen::index(src, n), b = gen::index(src, n);
                ctx.note_n("start", a);
                ctx.note_n("end", b);
                auto [x, y] = model::slice(n, a, b);
                ctx.nontrivial = ctx.nontrivial || (y > x && y - x < n);
                ctx.cls(y == x ? "replaces an empty range" : y - x == n ? "replaces everything" : "replaces a part");
                auto z = characters ? api::replace_chars(s, a, b, ins) : api::replace_codepoints(s, a, b, ins);
                gives(characters ? "replace_chars" : "replace_codepoints", z,
                      s.substr(0, e.off[x]) + ins + s.substr(e.off[y]));
            }
        }
    };
    sweep_code_points(p, "inserted, inserted next to, replaced and replacing", [](char32_t c, const Text& t)
    {
        auto s = model::enc(t), x = model::enc(c);
        for (bool characters : {true, false})
        {
            auto e = elements(t, characters);
            auto n = int64_t(e.n());
            for (int64_t i : {int64_t(1), n, int64_t(-1)})
            {
                auto k = *position(e.n(), i);
                auto head = s.substr(0, e.off[k]), tail = s.substr(e.off[k]);
                if (t.size() != 2)
                    gives("insert_char or insert_codepoint",
                          characters ? api::insert_char(s, i, c) : api::insert_codepoint(s, i, c), head + x + tail);
                gives("insert_chars or insert_codepoints",
                      characters ? api::insert_chars(s, i, "xy") : api::insert_codepoints(s, i, "xy"), head + "xy" + tail);
            }
            gives("replace_chars or replace_codepoints",
                  characters ? api::replace_chars(s, 1, 2, x) : api::replace_codepoints(s, 1, 2, x),
                  s.substr(0, e.off[std::min<size_t>(1, e.n())]) + x + s.substr(e.off[std::min<size_t>(2, e.n())]));
        }
    });
    p.quick_cases = 500000;
    p.thorough_cases = 30000000;
    return p;
}

Property pbt::make_property()
{
    load_model();
    string id = getenv("PBT_PROPERTY");
    return placed(id == "C09" ? c09() : id == "C10" ? c10() : id == "C11" ? c11() : c12());
}
