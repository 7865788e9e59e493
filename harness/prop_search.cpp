// C13 literal search, C14 search by set or predicate, C15 newlines, C17 trimming
#include "common.hpp"

using api::SetSpec;

// A haystack as text, with a related needle.
struct Pair
{
    Text t, u;
    string s, n;
};

static Pair gen_pair(Src& src, Ctx& ctx, unsigned focus)
{
    Pair p;
    // Few distinct code points make overlaps likely.
    auto a = gen::alphabet(src, focus, src.flag(1, 2) ? 2 : 5);
    p.t = gen::text(src, a, focus);
    p.u = gen::needle(src, p.t, a, focus);
    p.s = model::enc(p.t);
    p.n = model::enc(p.u);
    if (src.flag(1, 12))
    {
        // Any bytes; parts of code points as needles.
        if (src.flag(1, 2))
            p.s = gen::bytes(src, focus);
        if (!p.s.empty() && src.flag(2, 3))
        {
            auto b = src.choose(0, p.s.size() - 1);
            p.n = p.s.substr(b, src.choose(1, std::min<size_t>(p.s.size() - b, 4)));
        }
        else
            p.n = gen::bytes(src, focus);
        p.n.resize(gen::affordable(p.s.size(), p.n.size()));
    }
    ctx.note("s", p.s);
    ctx.note("n", p.n);
    return p;
}

static bool match_at(const string& s, size_t i, const string& n)
{
    return i <= s.size() && n.size() <= s.size() - i && std::equal(n.begin(), n.end(), s.begin() + ptrdiff_t(i));
}

static std::optional<Sub> first_match(const string& s, const string& n, size_t off)
{
    if (n.empty())
        return {};
    for (size_t i = off; i < s.size(); ++i)
        if (match_at(s, i, n))
            return Sub{i, n.size()};
    return {};
}

static std::optional<Sub> last_match(const string& s, const string& n, size_t off)
{
    off = std::min(off, s.size());
    if (n.empty() || off < n.size())
        return {};
    for (size_t i = off - n.size() + 1; i > 0; --i)
        if (match_at(s, i - 1, n))
            return Sub{i - 1, n.size()};
    return {};
}

static Property c13()
{
    Property p;
    p.id = "C13";
    p.rule = "A case is a haystack over a small alphabet and a needle which is a part of it, a part with a change, or "
             "unrelated (one in twelve: arbitrary bytes), with two offsets; forward and backward search, prefix, "
             "suffix and containment are compared with comparing at every position. Non-trivial: the needle occurs at "
             "least twice, or only on one side of an offset, or a proper prefix of it occurs.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto [t, u, s, n] = gen_pair(src, ctx, gen::ANY);
        size_t hits = 0, overlaps = 0, partial = 0, last = SIZE_MAX;
        for (size_t i = 0; !n.empty() && i < s.size(); ++i)
        {
            if (match_at(s, i, n))
            {
                ++hits;
                overlaps += last != SIZE_MAX && i - last < n.size();
                last = i;
            }
            else
                partial += n.size() > 1 && s[i] == n[0];
        }
        ctx.cls(n.empty() ? "empty needle" : !hits ? "no hit" : hits == 1 ? "one hit" : overlaps ? "overlapping hits" : "several hits");
        ctx.nontrivial = hits > 1 || partial;
        gives_sub("find_first", api::find_first(s, n), first_match(s, n, 0));
        gives_sub("find_last", api::find_last(s, n), last_match(s, n, SIZE_MAX));
        for (int k = 0; k < 2; ++k)
        {
            auto off = src.choose(0, s.size());
            ctx.note_n("offset", int64_t(off));
            auto e = first_match(s, n, off);
            if (e && e->off == off)
                ctx.cls("hit at the offset");
            gives_sub("find_first from an offset", api::find_first(s, n, off), e);
            if (src.flag(1, 8))
            {
                off = gen::limit(src, s.size());
                ctx.note_n("offset", int64_t(off));
            }
            e = last_match(s, n, off);
            if (e && e->off + e->len == off)
                ctx.cls("hit ending at the offset");
            ctx.nontrivial = ctx.nontrivial || (hits && !e);
            gives_sub("find_last from an offset", api::find_last(s, n, off), e);
        }
        gives("starts_with", api::starts_with(s, n), match_at(s, 0, n));
        gives("ends_with", api::ends_with(s, n), n.size() <= s.size() && match_at(s, s.size() - n.size(), n));

        auto c = src.flag(1, 2) && !t.empty() ? t[src.choose(0, t.size() - 1)] : src.flag(1, 8) ? gen::big(src) : gen::cp(src);
        ctx.note_cp("c", c);
        auto e = search_forward(s, 0, [&](char32_t x) {return x == c;});
        auto r = api::contains(s, c);
        if (e.threw)
            throws("contains meeting invalid UTF-8", r);
        else
            gives("contains", r, e.found);
    };
    sweep_code_points(p, "searched for and searched around", [](char32_t c, const Text& t)
    {
        auto s = model::enc(t), n = model::enc(c);
        for (auto& m : {n, string("b"), n + "b"})
        {
            gives_sub("find_first", api::find_first(s, m), first_match(s, m, 0));
            gives_sub("find_last", api::find_last(s, m), last_match(s, m, SIZE_MAX));
            gives("starts_with", api::starts_with(s, m), match_at(s, 0, m));
            gives("ends_with", api::ends_with(s, m), m.size() <= s.size() && match_at(s, s.size() - m.size(), m));
        }
        gives("contains", api::contains(s, c), true);
        gives("contains", api::contains(s, 'b'), c == 'b' || t.back() == 'b');
        auto other = c ^ 1;
        gives("contains", api::contains(s, other), t.find(other) != Text::npos);
    });
    p.quick_cases = 1000000;
    p.thorough_cases = 50000000;
    return p;
}

static bool in_list(const Text& l, char32_t c)
{
    return l.find(c) != Text::npos;
}

static SetSpec gen_set(Src& src, Ctx& ctx, const Text& t, const std::vector<char32_t>& a, unsigned focus)
{
    SetSpec s;
    auto some = [&]() -> char32_t
    {
        switch (src.weighted({3, 3, 2}))
        {
        case 0: return src.pick(a);
        case 1: return t.empty() ? src.pick(a) : t[src.choose(0, t.size() - 1)];
        default: return gen::cp(src, focus);
        }
    };
    while (s.ops.size() < 12 && src.flag(4, 5))
    {
        switch (src.weighted({3, 3, 1}))
        {
        case 0:
        {
            auto c = some();
            if (!s.ops.empty() && s.ops.back().kind < 2 && src.flag(1, 4))
                c = std::min(char32_t(std::max(s.ops.back().first, s.ops.back().last) + 1), model::MAX);
            s.ops.push_back({c, 0, 0});
            break;
        }
        case 1:
        {
            // Mostly short ranges, sometimes ending where others start.
            char32_t x = some();
            char32_t y = src.flag(1, 4) ? some()
                         : char32_t(std::min<uint64_t>(model::MAX, x + src.choose_by(0, model::MAX, [&]()
                               {return src.raw(8) ? src.raw(8) : src.raw(0x3000);})));
            if (src.flag(1, 3) && !s.ops.empty())
            {
                auto& o = s.ops[src.choose(0, s.ops.size() - 1)];
                auto l = o.kind == 1 ? o.last : o.first;
                x = o.kind == 2 ? x : src.flag(1, 2) ? std::min(char32_t(l + 1), model::MAX) : l;
            }
            s.ops.push_back({std::min(x, y), std::max(x, y), 1});
            break;
        }
        default:
            s.ops.push_back({0, 0, 2});
            s.texts.push_back(gen::list(src, t, a, focus));
        }
        if (src.flag(1, 6))
        {
            // What must not matter.
            auto c = some();
            s.ops.insert(s.ops.end() - ptrdiff_t(src.choose(0, 1)),
                         {c, std::min(char32_t(c + src.choose(0, 3)), model::MAX), int(src.choose(3, 5))});
        }
    }
    s.negated = src.flag(1, 4);
    size_t k = 0;
    for (auto& o : s.ops)
    {
        ctx.note_n("op", o.kind);
        if (o.kind == 2)
            ctx.note("cps", s.texts[k++]);
        else
        {
            ctx.note_cp("first", o.first);
            if (o.kind == 1)
                ctx.note_cp("last", o.last);
        }
    }
    ctx.note_n("negated", s.negated);
    return s;
}

static bool in_union(const SetSpec& s, char32_t c)
{
    size_t k = 0;
    bool r = false;
    for (auto& o : s.ops)
    {
        if (o.kind == 0)
            r = r || o.first == c;
        else if (o.kind == 1)
            r = r || (o.first <= c && c <= o.last);
        else if (o.kind == 2)
            r = in_list(s.texts[k++], c) || r;
    }
    return r;
}

static bool in_set(const SetSpec& s, char32_t c)
{
    return in_union(s, c) != s.negated;
}

static bool in_set_ci(const SetSpec& s, char32_t c)
{
    bool r = false;
    for (auto v : model::variants(c))
        r = r || in_union(s, v);
    return r != s.negated;
}

static bool in_list_ci(const Text& l, char32_t c)
{
    return std::any_of(l.begin(), l.end(), [&](char32_t x) {return model::ci_eq(x, c);});
}

static Property c14()
{
    Property p;
    p.id = "C14";
    p.rule = "A case is a string (one in six with arbitrary bytes), a list, a set built by some 12 additions "
             "(overlapping, adjacent, out of order; negated or not; with questions, copies and moves between them), a predicate and two offsets anywhere; the six "
             "searches are compared with scanning by an independent decoder, the sets with the union of what was "
             "added, and case-insensitive membership with all code points of equal upper case. Non-trivial: something "
             "but not everything qualifies.";
    p.run = [](Src& src, Ctx& ctx)
    {
        unsigned focus = src.flag(1, 2) ? gen::ANY : gen::CASE | gen::ASCII;
        auto a = gen::alphabet(src, focus);
        auto t = gen::text(src, a, focus, 40);
        auto s = model::enc(t);
        if (src.flag(1, 6))
        {
            s = gen::bytes(src, focus);
            if (s.size() > 200)
                s.resize(200);
        }
        ctx.note("s", s);
        ctx.cls(model::valid(s) ? "valid" : "invalid UTF-8");
        auto list = gen::list(src, t, a, focus);
        ctx.note("list", list);
        auto set = gen_set(src, ctx, t, a, focus);
        auto bits = src.choose(1, 15);
        ctx.mix_u64(bits);
        auto pred = [&](char32_t c) {return (bits >> (c % 4)) & 1;};
        auto any = search_forward(s, 0, [&](char32_t c) {return in_set(set, c);});
        auto none = search_forward(s, 0, [&](char32_t c) {return !in_set(set, c);});
        ctx.nontrivial = any.found && none.found;

        auto check = [&](std::optional<size_t> off)
        {
            auto f = off.value_or(0), l = off.value_or(SIZE_MAX);
            auto isl = [&](char32_t c) {return in_list(list, c);};
            auto iss = [&](char32_t c) {return in_set(set, c);};
            gives_search("find_first_of(list)", api::find_first_of(s, list, off), search_forward(s, f, isl));
            gives_search("find_last_of(list)", api::find_last_of(s, list, off), search_backward(s, l, isl));
            gives_search("find_first_of(set)", api::find_first_of_set(s, set, off), search_forward(s, f, iss));
            gives_search("find_last_of(set)", api::find_last_of_set(s, set, off), search_backward(s, l, iss));
            gives_search("find_first_where", api::find_first_where(s, pred, off), search_forward(s, f, pred));
            gives_search("find_last_where", api::find_last_where(s, pred, off), search_backward(s, l, pred));
        };
        check({});
        for (int k = 0; k < 2; ++k)
        {
            auto off = src.choose(0, s.size());
            ctx.note_n("offset", int64_t(off));
            check(off);
        }
        auto huge = gen::limit(src, s.size());
        gives_search("find_last_of(list)", api::find_last_of(s, list, huge),
                     search_backward(s, huge, [&](char32_t c) {return in_list(list, c);}));

        // Membership.
        auto member = [&](char32_t c)
        {
            if (api::set_contains(set, c) != in_set(set, c))
                fail("the set " + string(in_set(set, c) ? "lacks" : "contains") + " U+" + pbt::hex(c));
            if (api::set_ci_contains(set, c) != in_set_ci(set, c))
                fail("the set case-insensitively " + string(in_set_ci(set, c) ? "lacks" : "contains") + " U+" + pbt::hex(c));
            if (api::list_contains(list, c) != in_list(list, c))
                fail("contains(list) is wrong for U+" + pbt::hex(c));
            if (api::list_ci_contains(list, c) != in_list_ci(list, c))
                fail("case_insensitive_contains(list) is wrong for U+" + pbt::hex(c));
        };
        for (int k = 0; k < 2; ++k)
        {
            auto c = gen::cp(src, focus);
            ctx.note_cp("c", c);
            member(c);
        }
        if (!set.ops.empty())
        {
            auto& o = set.ops[src.choose(0, set.ops.size() - 1)];
            for (auto b : {o.first, o.last})
                for (char32_t c : std::initializer_list<char32_t>{b, b ? b - 1 : b, std::min(char32_t(b + 1), model::MAX)})
                    member(c);
            auto v = model::variants(char32_t(src.choose(o.first, std::max(o.first, o.last))));
            member(v[src.choose(0, v.size() - 1)]);
        }
        if (!list.empty())
        {
            auto v = model::variants(list[src.choose(0, list.size() - 1)]);
            member(v[src.choose(0, v.size() - 1)]);
        }
    };
    sweep_code_points(p, "searched for and passed over by list, set and predicate", [](char32_t c, const Text& t)
    {
        auto s = model::enc(t);
        SetSpec set;
        set.ops.push_back({c, c, 1});
        auto is = [&](char32_t x) {return x == c;};
        auto isnt = [&](char32_t x) {return x != c;};
        auto is_b = [](char32_t x) {return x == 'b';};
        Text l{c}, b(1, 'b');
        gives_search("find_first_of(list)", api::find_first_of(s, l), search_forward(s, 0, is));
        gives_search("find_last_of(list)", api::find_last_of(s, l), search_backward(s, SIZE_MAX, is));
        gives_search("find_first_of(list)", api::find_first_of(s, b), search_forward(s, 0, is_b));
        gives_search("find_last_of(list)", api::find_last_of(s, b), search_backward(s, SIZE_MAX, is_b));
        gives_search("find_first_of(set)", api::find_first_of_set(s, set), search_forward(s, 0, is));
        gives_search("find_last_of(set)", api::find_last_of_set(s, set), search_backward(s, SIZE_MAX, is));
        set.negated = true;
        gives_search("find_first_of(negated set)", api::find_first_of_set(s, set), search_forward(s, 0, isnt));
        gives_search("find_last_of(negated set)", api::find_last_of_set(s, set), search_backward(s, SIZE_MAX, isnt));
        gives_search("find_first_where", api::find_first_where(s, is), search_forward(s, 0, is));
        gives_search("find_last_where", api::find_last_where(s, isnt), search_backward(s, SIZE_MAX, isnt));
    });
    p.quick_cases = 400000;
    p.thorough_cases = 20000000;
    return p;
}

// ------------------------------------------------------------------ newlines
// Newlines of valid text as byte ranges, CR LF being one, starting at code
// point i (which may separate a pair).
static std::vector<Piece> newlines(const Text& t, const std::vector<size_t>& o)
{
    std::vector<Piece> r;
    for (size_t i = 0; i < t.size(); ++i)
    {
        if (!model::is_newline(t[i]))
            continue;
        size_t j = i + 1;
        if (t[i] == 13 && j < t.size() && t[j] == 10)
            ++j;
        r.push_back({o[i], o[j]});
        i = j - 1;
    }
    return r;
}

static void check_newlines(const string& s, const Text& t, const std::vector<size_t>& o, size_t k, bool no_offset)
{
    auto sub = [](const Piece& p) {return std::optional(Sub{p.begin, p.end - p.begin});};
    // From the offset onwards, and up to it, as texts of their own.
    auto after = newlines(t.substr(k), std::vector<size_t>(o.begin() + ptrdiff_t(k), o.end()));
    auto before = newlines(t.substr(0, k), std::vector<size_t>(o.begin(), o.begin() + ptrdiff_t(k) + 1));
    std::optional<size_t> off = o[k];
    if (!no_offset || k == 0)
        gives_sub("find_first_newline", api::find_first_newline(s, no_offset ? std::nullopt : off),
                  after.empty() ? std::nullopt : sub(after.front()));
    if (!no_offset || k == t.size())
        gives_sub("find_last_newline", api::find_last_newline(s, no_offset ? std::nullopt : off),
                  before.empty() ? std::nullopt : sub(before.back()));
}

static Property c15()
{
    Property p;
    p.id = "C15";
    p.rule = "A case is a text rich in all newline characters, CR LF pairs (adjacent, reversed, separated) and "
             "lookalikes (one in ten with invalid bytes, which must throw when reached); newline search from code "
             "point boundaries and line splitting are compared with a scan of the code point list. Non-trivial: two "
             "newlines, or a newline and invalid bytes.";
    p.run = [](Src& src, Ctx& ctx)
    {
        unsigned focus = gen::NEWLINES | (src.flag(1, 2) ? gen::ASCII : gen::ANY);
        if (src.flag(1, 10))
        {
            auto s = gen::bytes(src, focus);
            ctx.note("s", s);
            auto nl = [](char32_t c) {return model::is_newline(c);};
            auto off = src.choose(0, s.size());
            ctx.note_n("offset", int64_t(off));
            auto e = search_forward(s, off, nl);
            auto r = api::find_first_newline(s, off);
            ctx.nontrivial = e.threw || e.found;
            ctx.cls("bytes");
            if (e.threw)
                throws("find_first_newline meeting invalid UTF-8", r);
            else if (!e.found)
                gives_sub("find_first_newline", r, {});
            else
            {
                // A CR may be followed by something undecodable: not LF.
                auto end = e.hit.sub.off + e.hit.sub.len;
                auto next = model::at(s, end);
                if (e.hit.cp == 13 && next.ok && next.cp == 10)
                    e.hit.sub.len += next.len;
                if (!(e.hit.cp == 13 && !next.ok && end < s.size() && r.threw))
                    gives_sub("find_first_newline", r, e.hit.sub);
            }
            e = search_backward(s, off, nl);
            r = api::find_last_newline(s, off);
            if (e.threw)
                throws("find_last_newline meeting invalid UTF-8", r);
            else if (!e.found)
                gives_sub("find_last_newline", r, {});
            else
            {
                auto prev = model::before(s, e.hit.sub.off);
                if (e.hit.cp == 10 && prev.ok && prev.cp == 13)
                {
                    e.hit.sub.off -= prev.len;
                    e.hit.sub.len += prev.len;
                }
                if (!(e.hit.cp == 10 && !prev.ok && e.hit.sub.off > 0 && r.threw))
                    gives_sub("find_last_newline", r, e.hit.sub);
            }
            auto all = search_forward(s, 0, [](char32_t) {return false;});
            auto q = api::split_lines(s, {SIZE_MAX, false, src.flag(1, 2)});
            if (all.threw)
                throws("split_lines of invalid UTF-8", q);
            return;
        }
        auto a = gen::alphabet(src, focus);
        if (src.flag(1, 2))
            a.insert(a.end(), {13, 10});
        auto t = gen::text(src, a, focus, 40);
        auto s = model::enc(t);
        ctx.note("t", t);
        auto o = model::offsets(t);
        auto nls = newlines(t, o);
        ctx.nontrivial = nls.size() > 1;
        bool pair = false;
        for (auto& n : nls)
            pair = pair || (n.end - n.begin == 2 && s[n.begin] == 13);
        ctx.cls(nls.empty() ? "no newline" : pair ? "with CR LF" : "without CR LF");
        check_newlines(s, t, o, 0, true);
        check_newlines(s, t, o, t.size(), true);
        for (int i = 0; i < 3; ++i)
        {
            auto k = src.choose(0, t.size());
            ctx.note_n("offset", int64_t(o[k]));
            if (k > 0 && k < t.size() && t[k - 1] == 13 && t[k] == 10)
                ctx.cls("offset between CR and LF");
            check_newlines(s, t, o, k, false);
        }
        if (src.flag(1, 8))
            gives_sub("find_last_newline", api::find_last_newline(s, s.size() + gen::limit(src, 3) % 1000),
                      nls.empty() ? std::nullopt : std::optional(Sub{nls.back().begin, nls.back().end - nls.back().begin}));
        auto pr = gen_params(src, ctx, nls.size());
        gives_views("split_lines", api::split_lines(s, pr),
                    to_views(split_pieces(nls, s.size(), pr.max, pr.ignore_empty)));
        auto lines = api::split_lines(s, {SIZE_MAX, false, true});
        string all;
        for (size_t i = 0; i < lines.v.size(); ++i)
        {
            all += s.substr(std::min(lines.v[i].off, s.size()), lines.v[i].len);
            if (i < nls.size())
                all += s.substr(nls[i].begin, nls[i].end - nls[i].begin);
        }
        eq("lines and newlines interleaved", all, s);
    };
    p.sweep_size = 0x110000;
    p.sweep_text = "every code point between two others: whether it is a newline for both searches and split_lines";
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        auto c = char32_t(i);
        ctx.nontrivial = model::is_newline(c);
        if (i >= 0x30000 && i % 8 && !pbt::is_thorough())
            return;
        Text t{'x', c, 'y'};
        auto s = model::enc(t);
        auto o = model::offsets(t);
        check_newlines(s, t, o, 0, true);
        check_newlines(s, t, o, t.size(), true);
        gives_views("split_lines", api::split_lines(s, {SIZE_MAX, false, true}),
                    to_views(split_pieces(newlines(t, o), s.size(), SIZE_MAX, false)));
        if (ctx.nontrivial)
            for (char32_t d : U"\n\v\f\r\u0085\u2028\u2029a")
            {
                Text u{'x', c, d, c, 'y'};
                auto v = model::offsets(u);
                for (size_t k = 0; k <= u.size(); ++k)
                    check_newlines(model::enc(u), u, v, k, false);
            }
    };
    p.quick_cases = 700000;
    p.thorough_cases = 30000000;
    return p;
}

// ------------------------------------------------------------------ trimming
template <typename P>
static void check_trim(const char* name, const string& s, P qualifies, const std::function<Res<View>(int)>& run)
{
    // Scan on any bytes: undecodable text at the edge is an exception.
    auto scan_start = [&](size_t b, size_t e, bool& bad)
    {
        while (b < e)
        {
            auto u = model::at(string_view(s).substr(0, e), b);
            bad = !u.ok;
            if (bad || !qualifies(u.cp))
                break;
            b += u.len;
        }
        return b;
    };
    auto scan_end = [&](size_t b, size_t e, bool& bad)
    {
        while (e > b)
        {
            auto u = model::before(string_view(s).substr(b), e - b);
            bad = !u.ok;
            if (bad || !qualifies(u.cp))
                break;
            e -= u.len;
        }
        return e;
    };
    bool bad1 = false, bad2 = false, bad3 = false;
    auto b = scan_start(0, s.size(), bad1);
    auto e = scan_end(0, s.size(), bad2);
    auto e2 = scan_end(b, s.size(), bad3);
    string n = name;
    if (bad1)
        throws((n + " start at invalid UTF-8").c_str(), run(1));
    else
        gives_view((n + " start").c_str(), run(1), b, s.size() - b);
    if (bad2)
        throws((n + " end at invalid UTF-8").c_str(), run(2));
    else
        gives_view((n + " end").c_str(), run(2), 0, e);
    if (bad1 || bad3)
    {
        // Whichever end is trimmed first.
        if (!bad2 || b < s.size())
            throws((n + " at invalid UTF-8").c_str(), run(0));
    }
    else if (!bad2)
        gives_view((n + " both").c_str(), run(0), b, e2 - b);
}

static Property c17()
{
    Property p;
    p.id = "C17";
    p.rule = "A case is a string whose ends are drawn from the trim list, from whitespace or from anything (one in "
             "eight with arbitrary bytes), and a list; trimming by list, predicate and default is compared with "
             "scanning from the ends. The published whitespace sets are compared with their documented members for "
             "every code point. Non-trivial: something is trimmed and something is left.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto focus = gen::SPACES | (src.flag(1, 2) ? gen::ASCII : gen::ANY);
        auto a = gen::alphabet(src, focus);
        auto mid = gen::text(src, a, focus, 5);
        auto list = gen::list(src, mid, a, focus);
        Text edge = src.flag(1, 2) ? Text(U" \t\r\n") : list.empty() ? Text(U" ") : list;
        auto run_of = [&]()
        {
            Text r;
            while (r.size() < 20 && src.flag(2, 3))
                r += edge[src.choose(0, edge.size() - 1)];
            return r;
        };
        auto s = model::enc(run_of() + mid + run_of());
        if (src.flag(1, 8))
        {
            s = src.flag(1, 2) ? gen::bytes(src, focus)
                               : model::enc(run_of()) + gen::broken(src) + model::enc(mid) + gen::broken(src) + model::enc(run_of());
            ctx.cls(model::valid(s) ? "bytes (valid)" : "bytes (invalid)");
        }
        ctx.note("s", s);
        ctx.note("list", list);
        auto in = [&](char32_t c) {return in_list(list, c);};
        auto def = [&](char32_t c) {return c == ' ' || c == '\t' || c == '\n' || c == '\r';};
        check_trim("trim(list)", s, in, [&](int w) {return api::trim(w, s, list);});
        check_trim("trim_where", s, in, [&](int w) {return api::trim_where(w, s, in);});
        check_trim("trim (default)", s, def, [&](int w) {return api::trim(w, s, {});});
        auto ws = [&](char32_t c) {return model::is_newline(c) || model::is_separator(c) || c == 9;};
        check_trim("trim_where(white space)", s, ws, [&](int w) {return api::trim_where(w, s, ws);});
        auto r = api::trim(0, s, list);
        if (!r.threw)
        {
            auto u = s.substr(std::min(r.v.off, s.size()), r.v.len);
            gives_view("trim a second time", api::trim(0, u, list), 0, u.size());
            ctx.nontrivial = u.size() > 0 && u.size() < s.size();
            ctx.cls(u.empty() ? "nothing left" : u.size() == s.size() ? "nothing trimmed" : "trimmed");
        }
    };
    p.sweep_size = 0x110000;
    p.sweep_text = "every code point at the ends of a string: whether default trimming, trimming by the published "
                   "constants and searching for them treats it as white space";
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        auto c = char32_t(i);
        bool def = c == ' ' || c == '\t' || c == '\n' || c == '\r';
        ctx.nontrivial = def;
        if (i >= 0x30000 && i % 8 && !pbt::is_thorough())
            return;
        auto s = model::enc(Text{c, 'x', c});
        auto n = (s.size() - 1) / 2;
        auto want = [&](const char* what, const Res<View>& r, bool in)
        {
            gives_view(what, r, in ? n : 0, in ? 1 : s.size());
        };
        want("default trim", api::trim(0, s, {}), def);
        auto aw = api::ascii_whitespace(), cw = api::common_whitespace();
        bool ascii = c == ' ' || (c >= 9 && c <= 13);
        want("trim(ASCII_WHITESPACE)", api::trim(0, s, aw), ascii);
        want("trim(COMMON_WHITESPACE)", api::trim(0, s, cw), def);
        auto hit = [&](bool in) {return in ? Search{false, true, {{0, n}, c}} : Search{};};
        auto one = model::enc(c);
        gives_search("find_first_of(ASCII_WHITESPACE)", api::find_first_of(one, aw), hit(ascii));
        gives_search("find_first_of(COMMON_WHITESPACE)", api::find_first_of(one, cw), hit(def));
    };
    p.quick_cases = 600000;
    p.thorough_cases = 30000000;
    return p;
}

Property pbt::make_property()
{
    load_model();
    string id = getenv("PBT_PROPERTY");
    return placed(id == "C13" ? c13() : id == "C14" ? c14() : id == "C15" ? c15() : c17());
}
