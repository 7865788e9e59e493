// C19 case-insensitive order, C20 case-insensitive search, replace and split
#include "common.hpp"
#include <climits>

static int sign(int64_t v)
{
    return v < 0 ? -1 : v > 0;
}

// Decodable prefix and whether something undecodable follows it.
struct Prefix
{
    Text t;
    std::vector<size_t> off;      // byte offsets, and of the end of t
    bool bad = false;
};

static Prefix prefix(const string& s)
{
    Prefix p;
    size_t i = 0;
    p.off.push_back(0);
    while (i < s.size())
    {
        auto u = model::at(s, i);
        if (!u.ok)
        {
            p.bad = true;
            break;
        }
        p.t += u.cp;
        i += u.len;
        p.off.push_back(i);
    }
    return p;
}

// -2 throws, -3 throws or not
static int expected_compare(const Prefix& a, const Prefix& b)
{
    for (size_t i = 0;; ++i)
    {
        bool ea = i == a.t.size(), eb = i == b.t.size();
        if (ea && eb)
            return a.bad && b.bad ? -2 : a.bad || b.bad ? -3 : 0;
        if (ea)
            return a.bad ? -2 : -1;
        if (eb)
            return b.bad ? -2 : 1;
        auto x = model::upper(a.t[i]), y = model::upper(b.t[i]);
        if (x != y)
            return x < y ? -1 : 1;
    }
}

static void check_pair(const string& a, const string& b)
{
    auto e = expected_compare(prefix(a), prefix(b));
    auto c = api::ci::compare(a, b);
    auto q = api::ci::equal(a, b);
    auto l = api::ci::less(a, b);
    if (e == -3)
        return;
    if (e == -2)
    {
        throws("compare reaching invalid UTF-8", c);
        throws("equal reaching invalid UTF-8", q);
        throws("less reaching invalid UTF-8", l);
        return;
    }
    if (c.threw || sign(c.v) != e)
        fail("compare of " + show(a) + " and " + show(b) + ": got " + show(c) + ", expected the sign " + show(e));
    if (q.threw || q.v != (e == 0))
        fail("equal of " + show(a) + " and " + show(b) + ": got " + show(q));
    if (l.threw || l.v != (e < 0))
        fail("less of " + show(a) + " and " + show(b) + ": got " + show(l));
}

static void check_cps(char32_t a, char32_t b)
{
    auto x = model::upper(a), y = model::upper(b);
    for (bool functor : {false, true})
    {
        if (x <= INT_MAX && y <= INT_MAX && sign(api::ci_compare(a, b, functor)) != (x < y ? -1 : x > y))
            fail("case_insensitive_compare of " + show(a) + " and " + show(b) + " is " + show(api::ci_compare(a, b, functor)));
        if (api::ci_equal(a, b, functor) != (x == y))
            fail("case_insensitive_equal of " + show(a) + " and " + show(b) + " is wrong");
        if (api::ci_less(a, b, functor) != (x < y))
            fail("case_insensitive_less of " + show(a) + " and " + show(b) + " is wrong");
    }
}

static Property c19()
{
    Property p;
    p.id = "C19";
    p.rule = "A case is three related strings (recased copies, prefixes, copies with one change; one in eight with "
             "invalid bytes) and two related code points; compare, equal and less of every ordered pair are compared "
             "with comparing upper-cased code point lists. Non-trivial: two of the strings share a non-empty "
             "case-insensitive prefix and are not identical.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto focus = src.flag(3, 4) ? gen::CASE | gen::ASCII | gen::LETTERS : gen::ANY;
        auto a = gen::alphabet(src, focus);
        std::vector<Text> t;
        std::vector<string> s;
        t.push_back(gen::text(src, a, focus, 12));
        for (int i = 0; i < 2; ++i)
        {
            auto u = gen::recase(src, t[src.choose(0, t.size() - 1)]);
            switch (src.weighted({3, 3, 2, 1}))
            {
            case 0: break;
            case 1:
                if (!u.empty())
                {
                    auto k = src.choose(0, u.size() - 1);
                    u[k] = char32_t(src.choose_by(0, model::MAX, [&]() {return gen::propose_related(src, u[k]);}));
                }
                break;
            case 2:
                if (!u.empty())
                    u.resize(src.choose(0, u.size() - 1));
                break;
            default:
                u += gen::cp(src, focus);
            }
            t.push_back(u);
        }
        for (auto& u : t)
            s.push_back(model::enc(u));
        if (src.flag(1, 8))
        {
            auto& x = s[src.choose(0, 2)];
            auto k = src.choose(0, x.size());
            x.insert(k, gen::broken(src));
        }
        for (auto& x : s)
            ctx.note("s", x);
        for (auto& x : s)
            for (auto& y : s)
            {
                check_pair(x, y);
                if (&x < &y && x != y && !x.empty() && !y.empty())
                {
                    auto px = prefix(x), py = prefix(y);
                    if (!px.t.empty() && !py.t.empty() && model::ci_eq(px.t[0], py.t[0]))
                        ctx.nontrivial = true;
                    auto e = expected_compare(px, py);
                    ctx.cls(e < -1 ? "invalid reached" : e == 0 ? "equal, not identical" : "different");
                }
            }
        // Upper casing by simple mapping keeps a string equal to itself.
        if (model::valid(s[0]))
            gives("equal to the upper-cased string", api::ci::equal(s[0], model::enc(model::map_upper(*model::decode(s[0])))), true);
        auto c = src.flag(1, 6) ? gen::big(src) : gen::cp(src, focus);
        ctx.note_cp("c", c);
        char32_t d = src.flag(1, 8) ? gen::big(src)
                     : char32_t(src.choose_by(0, model::MAX, [&]() {return gen::propose_related(src, c);}));
        ctx.note_cp("d", d);
        check_cps(c, d);
        check_cps(d, c);
    };
    p.sweep_size = 0x110000;
    p.sweep_text = "every code point with its three cases and neighbours, alone and as strings";
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        auto c = char32_t(i);
        auto v = model::variants(c);
        ctx.nontrivial = v.size() > 1;
        if (!ctx.nontrivial && i % 8 && !pbt::is_thorough())
        {
            check_cps(c, c ^ 32);
            return;
        }
        v.insert(v.end(), {model::lower(c), model::title(c), c + 1, c ? c - 1 : c, c ^ 32});
        for (auto d : v)
        {
            if (d > model::MAX)
                continue;
            check_cps(c, d);
            check_cps(d, c);
            if (ctx.nontrivial)
                check_pair(model::enc(Text{'k', c, 'z'}), model::enc(Text{'K', d, 'z'}));
        }
    };
    sweep_code_points(p, "compared with itself, a longer and a neighbouring text", [](char32_t c, const Text& t)
    {
        auto s = model::enc(t);
        auto u = t;
        u[0] = u[0] == c ? (c ^ 1) : u[0] ^ 32;
        check_pair(s, s);
        check_pair(s, s + "A");
        check_pair(s + "A", s);
        check_pair(s, model::enc(u));
    });
    p.quick_cases = 300000;
    p.thorough_cases = 15000000;
    return p;
}

// ---------------------------------------------------------------------- C20
static bool ci_match(const Text& t, size_t i, const Text& n)
{
    if (n.size() > t.size() - i)
        return false;
    for (size_t k = 0; k < n.size(); ++k)
        if (!model::ci_eq(t[i + k], n[k]))
            return false;
    return true;
}

static std::vector<Piece> occurrences(const Text& t, const std::vector<size_t>& o, const Text& n)
{
    std::vector<Piece> r;
    for (size_t i = 0; !n.empty() && i + n.size() <= t.size();)
        if (ci_match(t, i, n))
        {
            r.push_back({o[i], o[i + n.size()]});
            i += n.size();
        }
        else
            ++i;
    return r;
}

static std::vector<Piece> occurrences_backwards(const Text& t, const std::vector<size_t>& o, const Text& n, uint64_t max)
{
    std::vector<Piece> r;
    size_t i = t.size();
    while (!n.empty() && i >= n.size() && r.size() < max)
        if (ci_match(t, i - n.size(), n))
        {
            r.push_back({o[i - n.size()], o[i]});
            i -= n.size();
        }
        else
            --i;
    std::reverse(r.begin(), r.end());
    return r;
}

static bool in_list_ci(const Text& l, char32_t c)
{
    return std::any_of(l.begin(), l.end(), [&](char32_t x) {return model::ci_eq(x, c);});
}

// Invalid haystack: what is found within its decodable prefix is found, what
// needs the rest throws, what ends exactly there may do either.
static void invalid_haystack(const string& s, const Text& u)
{
    auto p = prefix(s);
    auto n = model::enc(u);
    if (!p.bad || u.empty())
        return;
    auto o = occurrences(p.t, p.off, u);
    auto r = api::ci::find_first(s, n);
    if (o.empty())
        throws("find_first meeting invalid UTF-8", r);
    else if (o[0].end < p.off.back() || !r.threw)
        gives("find_first before invalid UTF-8", r, Sub{o[0].begin, o[0].end - o[0].begin});
    auto q = api::ci::starts_with(s, n);
    size_t k = 0;
    while (k < u.size() && k < p.t.size() && model::ci_eq(u[k], p.t[k]))
        ++k;
    if (k < p.t.size())
        gives("starts_with before invalid UTF-8", q, k == u.size());
    else if (k < u.size())
        throws("starts_with meeting invalid UTF-8", q);
    else if (!q.threw)
        gives("starts_with before invalid UTF-8", q, true);
    // A code point of the list before the invalid part is found.
    auto h = search_forward(s, 0, [&](char32_t c) {return in_list_ci(u, c);});
    gives_search("find_first_of(list)", api::ci::find_first_of(s, u), h);
    h = search_backward(s, s.size(), [&](char32_t c) {return in_list_ci(u, c);});
    gives_search("find_last_of(list)", api::ci::find_last_of(s, u), h);
}

static Property c20()
{
    Property p;
    p.id = "C20";
    p.rule = "A case is a text rich in letters whose cases differ in encoded length, a recased part of it (or changed, "
             "or unrelated) as needle, a list, a replacement, limits and offsets; search, prefix, suffix, replace and "
             "split are compared with matching code point lists by simple upper case (one case in ten has invalid "
             "bytes). Non-trivial: the needle matches somewhere with other bytes than its own.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto focus = src.flag(3, 4) ? gen::CASE | gen::ASCII | gen::LETTERS : gen::ANY;
        auto a = gen::alphabet(src, focus, src.flag(1, 2) ? 2 : 5);
        auto t = gen::recase(src, gen::text(src, a, focus));
        auto u = gen::recase(src, gen::needle(src, t, a, focus));
        u.resize(gen::affordable(t.size(), u.size(), 1 << 18));
        auto s = model::enc(t), n = model::enc(u);
        ctx.note("s", s);
        ctx.note("n", n);
        if (src.flag(1, 10))
        {
            auto o = model::offsets(t);
            s.insert(boundary(src, o), gen::broken(src));
            ctx.note("s", s);
            ctx.cls("invalid UTF-8");
            invalid_haystack(s, u);
            return;
        }
        auto o = model::offsets(t);
        auto all = occurrences(t, o, u);
        for (auto& m : all)
            if (s.compare(m.begin, m.end - m.begin, n) != 0)
            {
                ctx.nontrivial = true;
                if (m.end - m.begin != n.size())
                    ctx.cls("match of another length");
            }
        ctx.cls(u.empty() ? "empty needle" : all.empty() ? "no match" : all.size() == 1 ? "one match" : "several matches");

        auto first = [&](size_t k) -> std::optional<Sub>
        {
            for (size_t i = k; !u.empty() && i < t.size(); ++i)
                if (ci_match(t, i, u))
                    return Sub{o[i], o[i + u.size()] - o[i]};
            return {};
        };
        auto last = [&](size_t k) -> std::optional<Sub>
        {
            if (u.empty() || k < u.size())
                return {};
            for (size_t i = k - u.size() + 1; i > 0; --i)
                if (ci_match(t, i - 1, u))
                    return Sub{o[i - 1], o[i - 1 + u.size()] - o[i - 1]};
            return {};
        };
        gives_sub("find_first", api::ci::find_first(s, n), first(0));
        gives_sub("find_last", api::ci::find_last(s, n), last(t.size()));
        auto list = gen::recase(src, gen::list(src, t, a, focus));
        list.resize(gen::affordable(t.size(), list.size(), 1 << 18));
        ctx.note("list", list);
        api::SetSpec set;
        for (auto c : list)
            if (src.flag(1, 2))
                set.ops.push_back({c, 0, 0});
            else
                set.ops.push_back({c, std::min<char32_t>(model::MAX, c + char32_t(src.choose(0, 3))), 1});
        set.negated = src.flag(1, 5);
        auto in_list = [&](char32_t c) {return in_list_ci(list, c);};
        auto in_set = [&](char32_t c)
        {
            bool r = false;
            for (auto v : model::variants(c))
                for (auto& p : set.ops)
                    r = r || (p.kind ? p.first <= v && v <= p.last : p.first == v);
            return r != set.negated;
        };
        for (int i = 0; i < 2; ++i)
        {
            auto k = src.choose(0, t.size());
            ctx.note_n("offset", int64_t(o[k]));
            gives_sub("find_first from an offset", api::ci::find_first(s, n, o[k]), first(k));
            gives_sub("find_last from an offset", api::ci::find_last(s, n, o[k]), last(k));
            gives_search("find_first_of(list)", api::ci::find_first_of(s, list, o[k]), search_forward(s, o[k], in_list));
            gives_search("find_last_of(list)", api::ci::find_last_of(s, list, o[k]), search_backward(s, o[k], in_list));
            gives_search("find_first_of(set)", api::ci::find_first_of_set(s, set, o[k]), search_forward(s, o[k], in_set));
            gives_search("find_last_of(set)", api::ci::find_last_of_set(s, set, o[k]), search_backward(s, o[k], in_set));
        }
        if (src.flag(1, 6))
            gives_sub("find_last from beyond the end", api::ci::find_last(s, n, s.size() + gen::limit(src, 3) / 2), last(t.size()));
        gives_search("find_first_of(list)", api::ci::find_first_of(s, list), search_forward(s, 0, in_list));
        gives_search("find_last_of(set)", api::ci::find_last_of_set(s, set), search_backward(s, s.size(), in_set));
        gives("starts_with", api::ci::starts_with(s, n), ci_match(t, 0, u));
        gives("ends_with", api::ci::ends_with(s, n), u.size() <= t.size() && ci_match(t, t.size() - u.size(), u));

        auto to = src.flag(1, 3) ? n + "x" : model::enc(gen::text(src, a, focus, 2));
        if (all.size() * to.size() > 1 << 24)
            to.resize((1 << 24) / all.size());
        ctx.note("to", to);
        std::optional<int64_t> max;
        auto at = all;
        if (!src.flag(1, 4))
        {
            max = gen::index(src, all.size());
            if (*max == 0)
                max = -1;
            ctx.note_n("max", *max);
            if (*max < 0)
                at = occurrences_backwards(t, o, u, uint64_t(0) - uint64_t(*max));
            else if (uint64_t(*max) < at.size())
                at.resize(size_t(*max));
        }
        string e;
        size_t i = 0;
        for (auto& m : at)
        {
            e += s.substr(i, m.begin - i) + to;
            i = m.end;
        }
        e += s.substr(i);
        gives("replace", api::ci::replace(s, n, to, max), e);

        auto pr = gen_params(src, ctx, all.size());
        if (!u.empty())
            gives_views("split(substring)", api::ci::split(s, n, pr),
                        to_views(split_pieces(all, s.size(), pr.max, pr.ignore_empty)));
        std::vector<Piece> cuts;
        for (size_t k = 0; k < t.size(); ++k)
            if (in_list(t[k]))
                cuts.push_back({o[k], o[k + 1]});
        gives_views("split(list)", api::ci::split_chars(s, list, pr),
                    to_views(split_pieces(cuts, s.size(), pr.max, pr.ignore_empty)));
    };
    p.sweep_size = 0x110000;
    p.sweep_text = "every code point with several cases: each case searched for in each other, in both directions";
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        auto c = char32_t(i);
        auto v = model::variants(c);
        ctx.nontrivial = v.size() > 1;
        if (!ctx.nontrivial)
            return;
        v.push_back(c);
        for (auto d : v)
        {
            auto s = model::enc(Text{'<', c, '>'}), n = model::enc(d);
            auto e = std::optional(Sub{1, model::enc(c).size()});
            gives_sub("find_first", api::ci::find_first(s, n), e);
            gives_sub("find_last", api::ci::find_last(s, n), e);
            gives("starts_with", api::ci::starts_with(s, model::enc(Text{'<', d})), true);
            gives("ends_with", api::ci::ends_with(s, model::enc(Text{d, '>'})), true);
            gives("replace", api::ci::replace(s, n, "-", -1), string("<->"));
        }
    };
    sweep_code_points(p, "searched for, searched around, a separator and beside one", [](char32_t c, const Text& t)
    {
        auto s = model::enc(t);
        auto o = model::offsets(t);
        for (const auto& u : {Text{c}, Text(U"B")})
        {
            auto n = model::enc(u);
            auto all = occurrences(t, o, u);
            auto part = [&](const Piece& q) {return Sub{q.begin, q.end - q.begin};};
            gives_sub("find_first", api::ci::find_first(s, n), all.empty() ? std::nullopt : std::optional(part(all[0])));
            gives_sub("find_last", api::ci::find_last(s, n), all.empty() ? std::nullopt : std::optional(part(all.back())));
            gives("starts_with", api::ci::starts_with(s, n), ci_match(t, 0, u));
            gives("ends_with", api::ci::ends_with(s, n), ci_match(t, t.size() - 1, u));
            auto e = to_views(split_pieces(all, s.size(), SIZE_MAX, false));
            gives_views("split(substring)", api::ci::split(s, n, {}), e);
            gives_views("split(list)", api::ci::split_chars(s, u, {}), e);
            string r;
            for (auto d : t)
                r += model::ci_eq(d, u[0]) ? "-" : model::enc(d);
            gives("replace", api::ci::replace(s, n, "-", {}), r);
        }
    });
    p.quick_cases = 400000;
    p.thorough_cases = 20000000;
    return p;
}

Property pbt::make_property()
{
    load_model();
    string id = getenv("PBT_PROPERTY");
    return placed(id == "C19" ? c19() : c20());
}
