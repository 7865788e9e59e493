// C16 splitting and joining, C18 replacing
#include "common.hpp"

// Non-overlapping occurrences from the start.
static std::vector<Piece> occurrences(const string& s, const string& n)
{
    std::vector<Piece> r;
    for (size_t i = 0; !n.empty() && i + n.size() <= s.size();)
    {
        if (s.compare(i, n.size(), n) == 0)
        {
            r.push_back({i, i + n.size()});
            i += n.size();
        }
        else
            ++i;
    }
    return r;
}

// From the end, in order of position.
static std::vector<Piece> occurrences_backwards(const string& s, const string& n, uint64_t max)
{
    std::vector<Piece> r;
    size_t i = s.size();
    while (!n.empty() && i >= n.size() && r.size() < max)
    {
        if (s.compare(i - n.size(), n.size(), n) == 0)
        {
            r.push_back({i - n.size(), i});
            i -= n.size();
        }
        else
            --i;
    }
    std::reverse(r.begin(), r.end());
    return r;
}

// A token finder made of some choices: the first match of any needle, the
// longest there, or some function of the text only.
struct RandomFinder
{
    std::vector<string> needles;
    unsigned mode = 0;

    Sub operator()(string_view v) const
    {
        if (mode == 1)
        {
            // A run of bytes of one kind.
            for (size_t i = 0; i < v.size(); ++i)
                if ((unsigned char)v[i] % 3 == 0)
                {
                    size_t j = i;
                    while (j < v.size() && (unsigned char)v[j] % 3 == 0)
                        ++j;
                    return {i, j - i};
                }
            return {v.size(), 0};
        }
        for (size_t i = 0; i < v.size(); ++i)
        {
            size_t best = 0;
            for (auto& n : needles)
                if (n.size() > best && v.substr(i, n.size()) == n)
                    best = n.size();
            if (best)
                return {i, best};
        }
        return {mode == 2 ? v.size() : 0, 0};
    }

    std::vector<Piece> pieces(const string& s) const
    {
        std::vector<Piece> r;
        size_t start = 0;
        while (true)
        {
            auto f = (*this)(string_view(s).substr(start));
            if (!f.len)
                return r;
            r.push_back({start + f.off, start + f.off + f.len});
            start += f.off + f.len;
        }
    }
};

static string interleave(const string& s, const api::Views& parts, const std::vector<Piece>& seps)
{
    string r;
    for (size_t i = 0; i < parts.size(); ++i)
    {
        if (parts[i].len)
            r += s.substr(parts[i].off, parts[i].len);
        if (i + 1 < parts.size() && i < seps.size())
            r += s.substr(seps[i].begin, seps[i].end - seps[i].begin);
    }
    return r;
}

static Property c16()
{
    Property p;
    p.id = "C16";
    p.rule = "A case is a string over a small alphabet, a separator (a part of it, changed, or unrelated; one in ten on "
             "arbitrary bytes), a list, a finder function and split parameters; all four splits and the token "
             "iterator are compared with a scan, and the laws (interleaving, joining back) are checked. Non-trivial: "
             "there are two separators.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto a = gen::alphabet(src, gen::ANY, src.flag(1, 2) ? 2 : 4);
        auto t = gen::text(src, a);
        auto u = gen::needle(src, t, a);
        auto s = model::enc(t), n = model::enc(u);
        bool bytes = src.flag(1, 10);
        if (bytes)
        {
            s = gen::bytes(src);
            if (src.flag(1, 2) && !s.empty())
            {
                auto b = src.choose(0, s.size() - 1);
                n = s.substr(b, src.choose(1, std::min<size_t>(3, s.size() - b)));
            }
        }
        n.resize(gen::affordable(s.size(), n.size()));
        ctx.note("s", s);
        ctx.note("sep", n);
        auto seps = occurrences(s, n);
        ctx.nontrivial = seps.size() > 1;
        auto pr = gen_params(src, ctx, seps.size());
        ctx.cls(n.empty() ? "empty separator" : seps.empty() ? "no separator" : seps.size() == 1 ? "one separator" : "several separators");
        if (pr.max == 0)
            ctx.cls("limit 0");
        else if (pr.max < seps.size())
            ctx.cls("limit reached");
        if (!n.empty())
        {
            auto e = to_views(split_pieces(seps, s.size(), pr.max, pr.ignore_empty));
            gives_views("split(substring)", api::split(s, n, pr), e);
            auto all = api::split(s, n, {});
            eq("parts and separators interleaved", interleave(s, all.v, seps), s);
            std::vector<string> parts;
            for (auto& v : all.v)
                parts.push_back(v.len ? s.substr(v.off, v.len) : string());
            gives("join of split", api::join(parts, string_view(n), src.flag(1, 2)), s);
            if (!bytes)
                for (auto& x : parts)
                    if (x.find(n) != string::npos)
                        fail("a part contains the separator");
        }
        // Joining anything.
        {
            std::vector<string> parts;
            string e, e2;
            while (parts.size() < 8 && src.flag(3, 4))
            {
                auto k = src.choose(0, s.size());
                parts.push_back(s.substr(k, src.choose(0, std::min<size_t>(s.size() - k, 5))));
                e += (parts.size() > 1 ? n : "") + parts.back();
                e2 += parts.back();
            }
            bool views = src.flag(1, 2);
            gives("join", api::join(parts, string_view(n), views), e);
            gives("join without delimiter", api::join(parts, {}, views), e2);
        }
        // List of code points.
        auto list = gen::list(src, t, a);
        ctx.note("list", list);
        std::vector<Piece> cuts;

        bool valid = true;
        for (auto& w : model::units(s))
        {
            if (!w.ok)
            {
                valid = false;
                break;
            }
            if (list.find(w.cp) != Text::npos)
                cuts.push_back({w.pos, w.pos + w.len});

        }
        ctx.nontrivial = ctx.nontrivial || cuts.size() > 1;
        auto r = api::split_chars(s, list, pr);
        if (valid)
            gives_views("split(list)", r, to_views(split_pieces(cuts, s.size(), pr.max, pr.ignore_empty)));
        else if (pr.max == SIZE_MAX)
            throws("split(list) of invalid UTF-8", r);
        if (valid)
            eq("parts and separators interleaved", interleave(s, api::split_chars(s, list, {}).v, cuts), s);

        // Finder.
        RandomFinder f;
        f.mode = unsigned(src.weighted({3, 1, 1}));
        ctx.note_n("mode", f.mode);
        do
        {
            auto x = model::enc(gen::needle(src, t, a));
            ctx.note("token", x);
            if (!x.empty())
                f.needles.push_back(x);
        } while (f.needles.size() < 3 && src.flag(1, 2));
        auto fs = f.pieces(s);
        gives_views("split_where", api::split_where(s, f, pr),
                    to_views(split_pieces(fs, s.size(), pr.max, pr.ignore_empty)));
        auto tok = api::tokens(s, f);
        expect(!tok.threw, "TokenIterator threw");
        auto& tv = tok.v;
        // The state before the first step, one per token, the rest, two at the end.
        if (tv.size() != fs.size() + 4)
            fail("TokenIterator made " + show(tv.size() - 3) + " steps, expected " + show(fs.size() + 1));
        size_t start = 0;
        for (size_t i = 1; i <= fs.size() + 1; ++i)
        {
            bool last = i == fs.size() + 1;
            auto& k = tv[i];
            auto b = last ? s.size() : fs[i - 1].begin, e = last ? s.size() : fs[i - 1].end;
            auto part = [&](const char* what, const View& v, size_t from, size_t to)
            {
                if (v.len != to - from || (v.len && v.off != from))
                    fail("TokenIterator step " + show(i) + ": " + what + " is " + show(v) + ", expected "
                         + show(View{from, to - from}));
            };
            if (k.has_token == last)
                fail("TokenIterator step " + show(i) + ": wrong truth value");
            part("part", k.part, start, b);
            part("token", k.token, b, e);
            part("remainder", k.remainder, e, s.size());
            if (!k.more)
                fail("TokenIterator ended early");
            start = e;
        }
        if (tv[fs.size() + 2].more || tv[fs.size() + 3].more)
            fail("TokenIterator doesn't end");
    };
    sweep_code_points(p, "a separator and beside one, given as a string and in a list", [](char32_t c, const Text& t)
    {
        auto s = model::enc(t);
        for (auto x : {c, U'b'})
        {
            auto n = model::enc(x);
            auto e = to_views(split_pieces(occurrences(s, n), s.size(), SIZE_MAX, false));
            auto r = api::split(s, n, {});
            gives_views("split(substring)", r, e);
            gives_views("split(list)", api::split_chars(s, Text(1, x), {}), e);
            std::vector<string> parts;
            for (auto& v : r.v)
                parts.push_back(v.len ? s.substr(v.off, v.len) : string());
            gives("join of split", api::join(parts, string_view(n), false), s);
        }
    });
    p.quick_cases = 500000;
    p.thorough_cases = 25000000;
    return p;
}

static string replaced(const string& s, const std::vector<Piece>& at, const string& to)
{
    string r;
    size_t i = 0;
    for (auto& p : at)
    {
        r += s.substr(i, p.begin - i) + to;
        i = p.end;
    }
    return r + s.substr(i);
}

static string expected_replace(const string& s, const string& from, const string& to, std::optional<int64_t> max)
{
    if (!max)
        return replaced(s, occurrences(s, from), to);
    if (*max < 0)
        return replaced(s, occurrences_backwards(s, from, uint64_t(0) - uint64_t(*max)), to);
    auto o = occurrences(s, from);
    if (uint64_t(*max) < o.size())
        o.resize(size_t(*max));
    return replaced(s, o, to);
}

static Property c18()
{
    Property p;
    p.id = "C18";
    p.rule = "A case is a string over a small alphabet (so that occurrences overlap), what to replace (a part of it, "
             "changed, unrelated, empty), a replacement (often containing it) and a limit of either sign and any size "
             "but 0; the result is compared with scanning from the start or the end. Non-trivial: at least two "
             "occurrences.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto a = gen::alphabet(src, gen::ANY, src.flag(2, 3) ? 2 : 4);
        auto t = gen::text(src, a);
        auto u = gen::needle(src, t, a);
        auto s = model::enc(t), from = model::enc(u);
        auto to = src.flag(1, 3) ? model::enc(gen::needle(src, t, a)) + from : model::enc(gen::text(src, a, gen::ANY, 2));
        if (src.flag(1, 15))
        {
            s = gen::bytes(src);
            if (src.flag(1, 2) && !s.empty())
            {
                auto b = src.choose(0, s.size() - 1);
                from = s.substr(b, src.choose(1, std::min<size_t>(3, s.size() - b)));
            }
        }
        from.resize(gen::affordable(s.size(), from.size()));
        if (s.size() * to.size() > 1 << 24)
            to.resize((1 << 24) / s.size());
        ctx.note("s", s);
        ctx.note("from", from);
        ctx.note("to", to);
        auto all = occurrences(s, from);
        auto gen_limit = [&]() -> std::optional<int64_t>
        {
            if (src.flag(1, 4))
                return {};
            auto i = gen::index(src, all.size());
            return i ? i : 1;
        };
        auto max = gen_limit();
        if (max)
            ctx.note_n("max", *max);
        ctx.nontrivial = all.size() > 1;
        ctx.cls(from.empty() ? "empty needle" : all.empty() ? "no occurrence" : all.size() == 1 ? "one occurrence" : "several occurrences");
        if (max && *max < 0 && all.size() > 1)
            ctx.cls(uint64_t(-(*max + 1)) + 1 < all.size() ? "some from the end" : "all from the end");
        auto r = api::replace(s, from, to, max);
        gives("replace", r, expected_replace(s, from, to, max));

        auto cf = src.flag(2, 3) && !t.empty() ? t[src.choose(0, t.size() - 1)] : gen::cp(src);
        auto ct = gen::cp(src);
        ctx.note_cp("cf", cf);
        ctx.note_cp("ct", ct);
        max = gen_limit();
        if (max)
            ctx.note_n("max", *max);
        gives("replace_codepoint", api::replace_codepoint(s, cf, ct, max),
              expected_replace(s, model::enc(cf), model::enc(ct), max));
        if (src.flag(1, 12))
        {
            auto b = gen::big(src);
            ctx.note_cp("big", b);
            if (b > model::MAX)
            {
                ctx.cls("a value above U+10FFFF");
                throws("replace_codepoint by a too large value", api::replace_codepoint(s, cf, b, max));
                throws("replace_codepoint of a too large value", api::replace_codepoint(s, b, ct, max));
            }
        }
    };
    sweep_code_points(p, "replaced, replacing, and beside what is replaced", [](char32_t c, const Text& t)
    {
        auto s = model::enc(t), n = model::enc(c);
        for (auto max : {std::optional<int64_t>(), std::optional<int64_t>(-1)})
        {
            gives("replace", api::replace(s, n, "xy", max), expected_replace(s, n, "xy", max));
            gives("replace_codepoint", api::replace_codepoint(s, c, 'z', max), expected_replace(s, n, "z", max));
            gives("replace_codepoint", api::replace_codepoint(s, 'b', c, max), expected_replace(s, "b", n, max));
        }
    });
    p.quick_cases = 1000000;
    p.thorough_cases = 40000000;
    return p;
}

Property pbt::make_property()
{
    load_model();
    string id = getenv("PBT_PROPERTY");
    return placed(id == "C16" ? c16() : c18());
}
