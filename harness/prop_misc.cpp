// C29 (values and printed forms) and C30 (callbacks).
#include "common.hpp"

static string show(const api::SubrangeFacts& f)
{
    return "offset " + show(f.offset) + ", length " + show(f.length) + ", start() " + show(f.start) + ", end() "
           + show(f.end) + ", bool " + show(f.truth) + ", == " + show(f.equal) + ", != " + show(f.unequal) + ", printed "
           + show(f.text);
}

static void eq_facts(const char* what, const api::SubrangeFacts& a, const api::SubrangeFacts& e)
{
    if (!(a == e))
        fail(string(what) + ": got " + show(a) + ", expected " + show(e));
}

static api::SubrangeFacts facts(Sub a, Sub b)
{
    bool same = a.off == b.off && a.len == b.len;
    return {a.off, a.len, a.off, a.off + a.len, a.len != 0, same, !same,
            "{offset: " + std::to_string(a.off) + ", length: " + std::to_string(a.len) + "}"};
}

static void subrange_case(Src& src, Ctx& ctx)
{
    auto size = [&]() {return size_t(gen::limit(src, src.choose(0, 40)));};
    Sub a{size(), size()};
    auto b = a;
    if (src.flag(2, 3))
        b.off = src.flag(1, 2) ? size() : src.flag(1, 2) ? a.off + 1 : a.len;
    if (src.flag(2, 3))
        b.len = src.flag(1, 2) ? size() : src.flag(1, 2) ? a.len - 1 : a.off;
    auto ctor = int(src.choose(0, 2));
    if (ctor)
        a.len = 0;
    if (ctor == 2)
        a.off = SIZE_MAX;
    ctx.note_n("constructor", ctor);
    ctx.note_n("offset", int64_t(a.off));
    ctx.note_n("length", int64_t(a.len));
    ctx.note_n("other offset", int64_t(b.off));
    ctx.note_n("other length", int64_t(b.len));
    ctx.mix(&a, sizeof a);
    ctx.mix(&b, sizeof b);
    ctx.nontrivial = a.off != b.off || a.len != b.len;
    eq_facts("Subrange", api::subrange(ctor, a, b), facts(a, b));
    eq_facts("Subrange", api::subrange(ctor, a, a), facts(a, a));

    size_t p[4];
    for (auto& i : p)
        i = src.choose(0, 60);
    std::sort(p, p + 4);
    static const api::It kinds[] = {api::It::STRING, api::It::LIST, api::It::U8};
    Sub e{p[1] - p[0], p[2] - p[1]};
    eq_facts("Subrange of iterators", api::subrange_of(kinds[src.choose(0, 2)], p[3], p[0], p[1], p[2]), facts(e, e));
}

// The members of a printed set, up to the closing bracket at the very end.
struct Parsed
{
    bool negated = false;
    std::vector<std::pair<char32_t, char32_t>> ranges;
};

static Parsed parse_set(const string& s)
{
    auto t = model::decode(s);
    if (!t || t->size() < 2 || t->front() != U'[' || t->back() != U']')
        fail("a printed set is not text in brackets: " + show(s));
    auto u = t->substr(1, t->size() - 2);
    Parsed r;
    if (!u.empty() && u[0] == U'^')
    {
        r.negated = true;
        u.erase(0, 1);
    }
    for (size_t i = 0; i < u.size(); ++i)
    {
        if (i + 2 < u.size() && u[i + 1] == U'-')
        {
            r.ranges.push_back({u[i], u[i + 2]});
            i += 2;
        }
        else
            r.ranges.push_back({u[i], u[i]});
    }
    return r;
}

static bool has(const std::vector<std::pair<char32_t, char32_t>>& v, char32_t c)
{
    return std::any_of(v.begin(), v.end(), [&](auto& r) {return r.first <= c && c <= r.second;});
}

static void set_case(Src& src, Ctx& ctx)
{
    // Without the characters which have a meaning in the printed form (as
    // bounds; ranges may contain them) and without surrogates, which cannot
    // be printed as text, but all the same can be decoded here.
    auto alphabet = gen::alphabet(src, gen::ANY, 6);
    auto cp = [&]()
    {
        auto c = src.flag(1, 2) ? src.pick(alphabet) : gen::cp(src);
        if (src.flag(1, 3) && c < model::MAX)
            ++c;
        return c == U'-' || c == U'^' || c == U']' || c == U'[' ? U'x' : c;
    };
    api::SetSpec s;
    std::vector<std::pair<char32_t, char32_t>> expected;
    auto n = src.choose(0, 8);
    while (n--)
    {
        switch (src.choose(0, 2))
        {
        case 0:
        {
            auto c = cp();
            s.ops.push_back({c, c, 0});
            expected.push_back({c, c});
            break;
        }
        case 1:
        {
            auto c = cp(), d = src.flag(1, 4) ? c : src.flag(1, 2) ? std::min<char32_t>(c + 1, model::MAX) : cp();
            if (c > d)
                std::swap(c, d);
            if (d == U'-' || d == U'^' || d == U']' || d == U'[')
                d = c;
            s.ops.push_back({c, d, 1});
            expected.push_back({c, d});
            break;
        }
        default:
        {
            Text t;
            auto c = cp();
            // Also ascending and descending runs.
            for (auto k = src.choose(0, 5); k; --k)
            {
                t += c;
                expected.push_back({c, c});
                auto next = src.flag(1, 2) ? cp() : c < model::MAX && src.flag(3, 4) ? c + 1 : c ? c - 1 : c;
                c = next == U'-' || next == U'^' || next == U']' || next == U'[' ? U'y' : char32_t(next);
            }
            s.ops.push_back({0, 0, 2});
            s.texts.push_back(t);
        }
        }
    }
    s.negated = src.flag(1, 3);
    if (ctx.describe)
        for (auto& r : expected)
            ctx.text += " " + show(r.first) + "-" + show(r.second);
    ctx.note_n("negated", s.negated);
    ctx.nontrivial = expected.size() > 1;
    for (auto& r : expected)
        ctx.mix(&r, sizeof r);
    ctx.mix_u64(s.negated);

    auto text = api::set_text(s);
    auto got = parse_set(text);
    eq("whether the printed set is negated", got.negated, s.negated);
    // The bounds, and what is next to them, tell unions of ranges apart.
    auto probe = [&](char32_t c)
    {
        if (has(got.ranges, c) != has(expected, c))
            fail("the printed set " + show(text) + (has(expected, c) ? " lacks " : " has ") + show(c));
        if (api::set_contains(s, c) != (has(expected, c) != s.negated))
            fail("the set's contains is wrong for " + show(c));
    };
    for (auto* v : {&expected, &got.ranges})
        for (auto& r : *v)
            for (uint32_t c : std::initializer_list<uint32_t>{r.first - 1, r.first, r.first + 1, r.second - 1, r.second, r.second + 1})
                if (c <= model::MAX)
                    probe(char32_t(c));
}

static Property c29()
{
    Property p;
    p.id = "C29";
    p.rule = "A case is either two subranges of any offset and length (and one made from iterators into a string, vector "
             "or list), compared with plain pairs of numbers and their exact printed form, or a code point set built by "
             "a sequence of operations and printed, where parsing the text must give the same set. Non-trivial: the "
             "subranges differ, or the set has two or more members.";
    p.run = [](Src& src, Ctx& ctx)
    {
        if (src.flag(1, 2))
        {
            ctx.cls("set");
            set_case(src, ctx);
        }
        else
        {
            ctx.cls("subrange");
            subrange_case(src, ctx);
        }
    };
    p.quick_cases = 300000;
    p.thorough_cases = 40000000;
    return p;
}

// ---------------------------------------------------------------------- C30

// The code points a search looks at, and how it ends.
struct Seen
{
    Text cps;
    bool hit = false, bad = false;
    size_t pos = 0;                 // start (forward) or end (backward) of the hit
};

template <typename P>
static Seen forward(string_view s, size_t off, P stop)
{
    Seen r;
    r.pos = off;
    while (r.pos < s.size())
    {
        auto u = model::at(s, r.pos);
        r.bad = !u.ok;
        if (r.bad)
            break;
        r.cps += u.cp;
        r.hit = stop(u.cp);
        if (r.hit)
            break;
        r.pos += u.len;
    }
    return r;
}

template <typename P>
static Seen backward(string_view s, size_t off, P stop)
{
    Seen r;
    r.pos = std::min(off, s.size());
    while (r.pos > 0)
    {
        auto u = model::before(s, r.pos);
        r.bad = !u.ok;
        if (r.bad)
            break;
        r.cps += u.cp;
        r.hit = stop(u.cp);
        if (r.hit)
            break;
        r.pos -= u.len;
    }
    return r;
}

static void predicate_case(Src& src, Ctx& ctx)
{
    auto f = src.flag(1, 2) ? gen::ANY : gen::EDGES;
    auto alphabet = gen::alphabet(src, f, 5);
    auto s = src.flag(1, 6) ? gen::bytes(src, f) : model::enc(gen::text(src, alphabet, f));
    if (src.flag(1, 8))
        s.insert(src.flag(1, 2) ? 0 : s.size(), gen::broken(src));
    ctx.note("s", s);
    // The predicate holds for some of the alphabet, or every k-th call.
    Text yes;
    for (auto c : alphabet)
        if (src.flag(1, 3))
            yes += c;
    bool invert = src.flag(1, 3);
    auto pure = [&](char32_t c) {return (yes.find(c) != yes.npos) != invert;};
    ctx.note("yes", yes);
    ctx.note_n("invert", invert);
    auto kind = int(src.choose(0, 4));
    static const char* const names[] = {"find_first_where", "find_last_where", "trim_where", "trim_start_where",
                                        "trim_end_where"};
    ctx.cls(names[kind]);
    ctx.note_n("function", kind);
    size_t off = 0;
    std::optional<size_t> o;
    if (kind == 0 && src.flag(1, 2))
        o = off = src.choose(0, s.size());
    if (kind == 1)
    {
        off = s.size();
        if (src.flag(1, 2))
            o = off = src.flag(1, 4) ? gen::limit(src, s.size()) : src.choose(0, s.size());
    }
    if (o)
        ctx.note_n("offset", int64_t(*o));
    ctx.mix(s.data(), s.size());
    ctx.mix_u64(off * 8 + uint64_t(kind));
    ctx.mix(yes.data(), yes.size() * 4);

    // What may be seen; trimming both ends may begin with either.
    std::vector<Text> allowed;
    bool threw = false;
    auto no = [&](char32_t c) {return !pure(c);};
    if (kind == 0)
    {
        auto e = forward(s, off, pure);
        allowed = {e.cps};
        threw = e.bad;
    }
    else if (kind == 1)
    {
        auto e = backward(s, off, pure);
        allowed = {e.cps};
        threw = e.bad;
    }
    else if (kind == 3 || kind == 4)
    {
        auto e = kind == 3 ? forward(s, 0, no) : backward(s, s.size(), no);
        allowed = {e.cps};
        threw = e.bad;
    }
    else
    {
        auto a = forward(s, 0, no);
        if (a.bad)
            threw = true;
        auto rest = string_view(s).substr(a.hit ? a.pos : s.size());
        auto b = backward(rest, rest.size(), no);
        threw |= b.bad;
        allowed.push_back(a.bad ? a.cps : a.cps + b.cps);
        auto c = backward(s, s.size(), no);
        auto rest2 = string_view(s).substr(0, c.hit ? c.pos : 0);
        auto d = forward(rest2, 0, no);
        allowed.push_back(c.bad ? c.cps : c.cps + d.cps);
    }

    auto call = [&](const api::Pred& p)
    {
        // True if the library threw.
        switch (kind)
        {
        case 0: return api::find_first_where(s, p, o).threw;
        case 1: return api::find_last_where(s, p, o).threw;
        default: return api::trim_where(kind - 2, s, p).threw;
        }
    };
    Text seen;
    bool t = call([&](char32_t c) {seen += c; return pure(c);});
    eq((names[kind] + string(" throws")).c_str(), t, threw);
    if (std::find(allowed.begin(), allowed.end(), seen) == allowed.end())
        fail(string(names[kind]) + ": the predicate was called with " + show(seen) + ", expected " + show(allowed[0]));

    // The same with an exception at some call.
    ctx.nontrivial = seen.size() > 1;
    if (seen.empty())
        return;
    auto at = src.choose(0, seen.size() - 1);
    ctx.note_n("exception at call", int64_t(at));
    size_t calls = 0;
    Text seen2;
    try
    {
        call([&](char32_t c) -> bool
        {
            seen2 += c;
            if (calls++ == at)
                throw api::CallbackError{int(at) + 7};
            return pure(c);
        });
        fail(string(names[kind]) + ": the exception thrown by the predicate is lost");
    }
    catch (api::CallbackError& e)
    {
        eq("the exception thrown by the predicate", e.n, int(at) + 7);
    }
    eq("code points seen until the exception", seen2, seen.substr(0, at + 1));
}

static void finder_case(Src& src, Ctx& ctx)
{
    auto alphabet = gen::alphabet(src, gen::ANY, 3);
    auto s = src.flag(1, 6) ? gen::bytes(src) : model::enc(gen::text(src, alphabet, gen::ANY, 12));
    ctx.note("s", s);
    // A finder with a memory: it reports the k-th of its tokens at a distance
    // and of a length made up beforehand.
    std::vector<std::pair<size_t, size_t>> plan;
    while (plan.size() < 30 && src.flag(4, 5))
        plan.push_back({src.choose(0, 6), src.choose(1, 4)});
    for (auto& x : plan)
        ctx.note_n("skip", int64_t(x.first)), ctx.note_n("length", int64_t(x.second));
    auto params = gen_params(src, ctx, 4);
    bool iterator = src.flag(1, 3);
    ctx.cls(iterator ? "TokenIterator" : "split_where");
    ctx.mix(s.data(), s.size());
    for (auto& x : plan)
        ctx.mix(&x, sizeof x);
    ctx.mix_u64(params.max);

    auto plan_at = [&](size_t k, size_t n) -> Sub
    {
        if (k >= plan.size() || plan[k].first + plan[k].second > n)
            return {SIZE_MAX, 0};
        return {plan[k].first, plan[k].second};
    };
    // Every call is given what is left after the token before.
    std::vector<size_t> starts;
    for (size_t p = 0, k = 0;; ++k)
    {
        starts.push_back(p);
        auto t = plan_at(k, s.size() - p);
        if (!t.len)
            break;
        p += t.off + t.len;
    }
    std::optional<size_t> fail_at;
    std::vector<string> given;
    auto run = [&]()
    {
        given.clear();
        api::Finder f = [&](api::Bytes v) -> Sub
        {
            auto k = given.size();
            given.push_back(string(v));
            if (fail_at && k == *fail_at)
                throw api::CallbackError{int(k)};
            if (k >= starts.size() || string_view(s).substr(starts[k]) != v)
                fail("the finder was given " + show(string(v)) + " at call " + show(k) + ", expected "
                     + (k < starts.size() ? show(s.substr(starts[k])) : "no more calls"));
            return plan_at(k, v.size());
        };
        if (iterator)
            (void)api::tokens(s, f);
        else
            (void)api::split_where(s, f, params);
    };
    run();
    auto n = given.size();
    // One call for each part cut off, until there are enough.
    size_t expected = 0;
    if (iterator)
        expected = starts.size();
    else
    {
        uint64_t parts = 0, max = params.defaults ? SIZE_MAX : params.max;
        while (parts < max && expected < starts.size())
        {
            auto t = plan_at(expected, s.size() - starts[expected]);
            if (!params.ignore_empty || params.defaults || (t.len ? t.off != 0 : starts[expected] != s.size()))
                ++parts;
            ++expected;
        }
    }
    eq("calls of the finder", n, expected);
    ctx.nontrivial = n > 1;
    if (n == 0)
        return;
    fail_at = src.choose(0, n - 1);
    ctx.note_n("exception at call", int64_t(*fail_at));
    try
    {
        run();
        fail("the exception thrown by the finder is lost");
    }
    catch (api::CallbackError& e)
    {
        eq("the exception thrown by the finder", e.n, int(*fail_at));
    }
    eq("calls of the finder until its exception", given.size(), *fail_at + 1);
}

static Property c30()
{
    Property p;
    p.id = "C30";
    p.rule = "A case is a text or byte string and a callback: a predicate given to a search or trim function, which must be "
             "called with exactly the code points from the start of the search on, in order, once each, up to and "
             "including the first hit; or a token finder that makes up its tokens, given to split_where or a "
             "TokenIterator, which must be given exactly what is left each time. The case is then repeated with the "
             "callback throwing at some call; the exception must come out unchanged and end the calls. "
             "Non-trivial: at least two calls.";
    p.run = [](Src& src, Ctx& ctx)
    {
        if (src.flag(2, 3))
            predicate_case(src, ctx);
        else
            finder_case(src, ctx);
    };
    p.quick_cases = 300000;
    p.thorough_cases = 40000000;
    return p;
}

Property pbt::make_property()
{
    load_model();
    string id = getenv("PBT_PROPERTY");
    return id == "C29" ? c29() : c30();
}
