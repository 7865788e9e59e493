// C25: histories of edits against a list of code points.
#include "common.hpp"

namespace
{
    using Items = std::vector<Text>;

    // ---- The model: operations on lists of code points.
    Items items(const Text& t, bool characters)
    {
        Items r;
        if (characters)
            for (auto& c : model::chars(t))
                r.push_back(t.substr(c.begin, c.size()));
        else
            for (auto c : t)
                r.push_back(Text(1, c));
        return r;
    }

    Text concat(const Items& v, size_t from = 0, size_t to = SIZE_MAX)
    {
        Text r;
        for (size_t i = from; i < std::min(to, v.size()); ++i)
            r += v[i];
        return r;
    }

    using Eq = bool (*)(char32_t, char32_t);

    bool same(char32_t a, char32_t b) {return a == b;}

    std::vector<size_t> matches(const Text& t, const Text& n, Eq eq, bool backwards, uint64_t max)
    {
        std::vector<size_t> r;
        if (n.empty() || n.size() > t.size())
            return r;
        auto at = [&](size_t i) {return std::equal(n.begin(), n.end(), t.begin() + ptrdiff_t(i), eq);};
        if (!backwards)
        {
            for (size_t i = 0; i + n.size() <= t.size() && r.size() < max;)
            {
                if (at(i))
                {
                    r.push_back(i);
                    i += n.size();
                }
                else
                    ++i;
            }
            return r;
        }
        for (size_t i = t.size() - n.size() + 1; i > 0 && r.size() < max;)
        {
            if (at(i - 1))
            {
                r.insert(r.begin(), i - 1);
                i = i - 1 >= n.size() ? i - n.size() : 0;
            }
            else
                --i;
        }
        return r;
    }

    Items cut(const Text& t, const std::vector<std::pair<size_t, size_t>>& seps, uint64_t max, bool ignore_empty)
    {
        Items r;
        size_t start = 0;
        for (auto [b, e] : seps)
        {
            if (r.size() >= max)
                break;
            if (!ignore_empty || b > start)
                r.push_back(t.substr(start, b - start));
            start = e;
        }
        if (!ignore_empty || start < t.size())
            r.push_back(t.substr(start));
        return r;
    }

    Text joined(const Items& parts, const Text& d)
    {
        Text r;
        for (size_t i = 0; i < parts.size(); ++i)
            r += (i ? d : Text()) + parts[i];
        return r;
    }

    Text escaped(const Text& t)
    {
        Text r;
        for (auto c : t)
        {
            static const char32_t from[] = U"\b\f\n\r\t\"\\", to[] = U"bfnrt\"\\";
            auto p = c ? std::u32string_view(from, 7).find(c) : Text::npos;
            if (p != Text::npos)
                (r += U'\\') += to[p];
            else if (c < 0x20)
            {
                r += U"\\u00";
                r += U"01"[c >> 4];
                r += U"0123456789ABCDEF"[c & 15];
            }
            else
                r += c;
        }
        return r;
    }

    class History
    {
    public:
        History(Src& src, Ctx& ctx)
            : src(src), ctx(ctx), a(gen::alphabet(src, src.flag(1, 2) ? gen::ANY : FOCUS, 4)),
              t(gen::text(src, a, gen::ANY, 12)), s(model::enc(t))
        {
            ctx.note("t", t);
        }

        void run()
        {
            query();
            auto n = src.choose_by(1, 60, [&]() {return 2 + (src.raw(8) ? src.raw(12) : src.raw(59));});
            size_t changed = 0;
            for (uint64_t i = 0; i < n && t.size() < 3000; ++i)
            {
                auto before = t;
                step();
                changed += before != t;
                if (!model::valid(s))
                    fail("not valid UTF-8 after " + name);
                if (s != model::enc(t))
                    fail("after " + name + " the text is " + show(s) + ", expected " + show(t));
                query();
                ctx.mix(s.data(), s.size());
            }
            ctx.nontrivial = changed >= 3;
            ctx.cls(changed < 3 ? "0-2 changes" : changed < 8 ? "3-7 changes" : "more changes");
        }

    private:
        static constexpr unsigned FOCUS = gen::MARKS | gen::LETTERS | gen::CASE | gen::NORM | gen::SPACES | gen::ESCAPES;
        Src& src;
        Ctx& ctx;
        std::vector<char32_t> a;
        Text t;
        string s;
        string name;

        Text piece(unsigned mean = 2)
        {
            auto r = gen::text(src, a, gen::ANY, mean);
            if (r.size() > 60)
                r.resize(60);
            return r;
        }
        char32_t cp()
        {
            return src.flag(2, 3) ? a[src.choose(0, a.size() - 1)] : gen::cp(src);
        }
        Text part()
        {
            return gen::needle(src, t, a);
        }
        // A valid position, from either end.
        int64_t position(size_t n, size_t& at)
        {
            at = src.choose(0, n);
            return src.flag(1, 2) && at < n ? int64_t(at) - int64_t(n) : int64_t(at);
        }

        void set(const Res<string>& r, const Text& expected)
        {
            if (r.threw)
                fail(name + " threw YstringException on valid arguments; text " + show(t));
            s = r.v;
            t = expected;
        }

        void set_parts(const Res<api::Views>& r, const Items& expected, bool views)
        {
            if (r.threw)
                fail(name + " threw YstringException on valid arguments; text " + show(t));
            std::vector<string> parts;
            for (auto& v : r.v)
                parts.push_back(v.len ? s.substr(v.off, v.len) : string());
            std::vector<string> e;
            for (auto& x : expected)
                e.push_back(model::enc(x));
            if (parts != e)
                fail(name + " gives " + show(parts) + ", expected " + show(e));
            if (src.flag(1, 3))
                std::reverse(parts.begin(), parts.end());
            else if (src.flag(1, 3) && parts.size() > 1)
                parts.pop_back();
            Items back;
            for (auto& x : parts)
                back.push_back(*model::decode(x));
            auto d = src.flag(1, 4) ? Text() : piece();
            name = "join";
            auto ds = model::enc(d);
            set(api::join(parts, d.empty() && src.flag(1, 2) ? std::nullopt : std::optional<api::Bytes>(ds), views),
                joined(back, d));
        }

        int64_t slice_index(size_t n) {return gen::index(src, n);}

        void note(const char* what)
        {
            name = what;
            ctx.cls(what);
            ctx.note("op", name);
        }

        void step()
        {
            bool chars = src.flag(1, 2);
            auto its = items(t, chars);
            size_t at;
            switch (src.choose(0, 23))
            {
            case 0:
            {
                note("append");
                auto c = cp();
                ctx.note_cp("c", c);
                set(src.flag(1, 2) ? api::append(s, c) : api::append_in_place(s, c), t + c);
                break;
            }
            case 1: case 2:
            {
                note(chars ? "insert_chars" : "insert_codepoints");
                auto p = piece();
                auto i = position(its.size(), at);
                ctx.note("piece", p);
                ctx.note_n("i", i);
                auto e = concat(its, 0, at) + p + concat(its, at);
                set(chars ? api::insert_chars(s, i, model::enc(p)) : api::insert_codepoints(s, i, model::enc(p)), e);
                break;
            }
            case 3:
            {
                note(chars ? "insert_char" : "insert_codepoint");
                auto c = cp();
                auto i = position(its.size(), at);
                ctx.note_cp("c", c);
                ctx.note_n("i", i);
                auto e = concat(its, 0, at) + c + concat(its, at);
                set(chars ? api::insert_char(s, i, c) : api::insert_codepoint(s, i, c), e);
                break;
            }
            case 4: case 5:
            {
                note(chars ? "replace_chars" : "replace_codepoints");
                auto i = slice_index(its.size()), j = slice_index(its.size());
                auto p = piece();
                ctx.note("piece", p);
                ctx.note_n("i", i);
                ctx.note_n("j", j);
                auto [b, e] = model::slice(its.size(), i, j);
                auto x = concat(its, 0, b) + p + concat(its, e);
                set(chars ? api::replace_chars(s, i, j, model::enc(p)) : api::replace_codepoints(s, i, j, model::enc(p)), x);
                break;
            }
            case 6:
            {
                note(chars ? "get_char_substring" : "get_codepoint_substring");
                auto i = slice_index(its.size());
                auto j = gen::opt_index(src, its.size());
                ctx.note_n("i", i);
                if (j)
                    ctx.note_n("j", *j);
                auto [b, e] = model::slice(its.size(), i, j.value_or(INT64_MAX));
                auto r = chars ? api::get_char_substring(s, i, j) : api::get_codepoint_substring(s, i, j);
                set({r.threw, r.v.len ? s.substr(r.v.off, r.v.len) : string()}, concat(its, b, e));
                break;
            }
            case 7: case 8:
            {
                bool ci = src.flag(1, 3);
                note(ci ? "ci::replace" : "replace");
                auto f = part();
                if (ci)
                    f = gen::recase(src, f);
                if (f.empty())
                    f = Text(1, cp());
                auto to = piece();
                std::optional<int64_t> max;
                if (src.flag(1, 2))
                    max = src.flag(1, 2) ? int64_t(src.choose(1, 3)) : -int64_t(src.choose(1, 3));
                ctx.note("from", f);
                ctx.note("to", to);
                if (max)
                    ctx.note_n("max", *max);
                auto m = matches(t, f, ci ? model::ci_eq : same, max && *max < 0, max ? uint64_t(*max < 0 ? -*max : *max) : UINT64_MAX);
                if (m.size() * to.size() > 2000)
                    break;
                Text e;
                size_t p = 0;
                for (auto i : m)
                {
                    e += t.substr(p, i - p) + to;
                    p = i + f.size();
                }
                e += t.substr(p);
                set(ci ? api::ci::replace(s, model::enc(f), model::enc(to), max)
                       : api::replace(s, model::enc(f), model::enc(to), max), e);
                break;
            }
            case 9:
            {
                note("replace_codepoint");
                auto f = t.empty() ? cp() : t[src.choose(0, t.size() - 1)], to = cp();
                ctx.note_cp("from", f);
                ctx.note_cp("to", to);
                auto e = t;
                std::replace(e.begin(), e.end(), f, to);
                set(api::replace_codepoint(s, f, to, {}), e);
                break;
            }
            case 10:
            {
                note("trim");
                auto which = int(src.choose(0, 2));
                auto kind = src.choose(0, 2);
                auto l = gen::list(src, t, a);
                ctx.note_n("which", which);
                ctx.note_n("kind", int64_t(kind));
                ctx.note("list", l);
                Text ws = api::common_whitespace();
                auto in = [&](char32_t c)
                {
                    return kind == 0 ? ws.find(c) != Text::npos : kind == 1 ? l.find(c) != Text::npos : !model::is_letter(c);
                };
                size_t b = 0, e = t.size();
                if (which != 2)
                    while (b < e && in(t[b]))
                        ++b;
                if (which != 1)
                    while (e > b && in(t[e - 1]))
                        --e;
                auto r = kind == 0 ? api::trim(which, s, {}) : kind == 1 ? api::trim(which, s, l)
                         : api::trim_where(which, s, [](char32_t c) {return !model::is_letter(c);});
                set({r.threw, r.v.len ? s.substr(r.v.off, r.v.len) : string()}, t.substr(b, e - b));
                break;
            }
            case 11:
                note("to_upper");
                set(api::to_upper(s), model::upper_str(t));
                break;
            case 12:
                note("to_lower");
                set(api::to_lower(s), model::lower_str(t));
                break;
            case 13:
                note("to_title");
                set(api::to_title(s), model::title_str(t));
                break;
            case 14: case 15:
                note("to_decomposed");
                set(api::to_decomposed(s), model::decompose_str(t));
                break;
            case 16:
                note("to_composed");
                set(api::to_composed(s), model::compose_str(t));
                break;
            case 17:
            {
                note("reverse");
                auto c = items(t, true);
                std::reverse(c.begin(), c.end());
                set(api::reverse(s), concat(c));
                break;
            }
            case 18:
            {
                note("escape_json");
                auto was = t;
                set(api::escape_json(s), escaped(t));
                if (src.flag(3, 4))
                {
                    if (s != model::enc(t))
                        fail("escape_json gives " + show(s) + ", expected " + show(t));
                    note("unescape");
                    set(api::unescape(s), was);
                }
                break;
            }
            case 19: case 20:
            {
                bool ci = src.flag(1, 4);
                auto p = gen_params(src, ctx, 3);
                if (p.max == 0)
                    p.max = 1;
                if (src.flag(1, 2))
                {
                    note(ci ? "ci::split" : "split");
                    auto f = part();
                    if (f.empty())
                        f = Text(1, cp());
                    ctx.note("by", f);
                    std::vector<std::pair<size_t, size_t>> seps;
                    for (auto i : matches(t, f, ci ? model::ci_eq : same, false, UINT64_MAX))
                        seps.push_back({i, i + f.size()});
                    auto fs = model::enc(f);
                    set_parts(ci ? api::ci::split(s, fs, p) : api::split(s, fs, p),
                              cut(t, seps, p.max, p.ignore_empty), src.flag(1, 2));
                }
                else
                {
                    note("split by code points");
                    auto l = gen::list(src, t, a);
                    ctx.note("by", l);
                    std::vector<std::pair<size_t, size_t>> seps;
                    for (size_t i = 0; i < t.size(); ++i)
                        if (l.find(t[i]) != Text::npos)
                            seps.push_back({i, i + 1});
                    set_parts(api::split_chars(s, l, p), cut(t, seps, p.max, p.ignore_empty), src.flag(1, 2));
                }
                break;
            }
            case 21:
            {
                note("split_lines");
                auto p = gen_params(src, ctx, 3);
                if (p.max == 0)
                    p.max = 1;
                std::vector<std::pair<size_t, size_t>> seps;
                for (size_t i = 0; i < t.size(); ++i)
                {
                    if (!model::is_newline(t[i]))
                        continue;
                    size_t n = t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n' ? 2 : 1;
                    seps.push_back({i, i + n});
                    i += n - 1;
                }
                set_parts(api::split_lines(s, p), cut(t, seps, p.max, p.ignore_empty), src.flag(1, 2));
                break;
            }
            case 22:
                note("replace_invalid_utf8");
                set(src.flag(1, 2) ? api::replace_invalid_utf8(s, {}) : api::replace_invalid_utf8_in_place(s, cp()), t);
                break;
            default:
            {
                note("to_utf32 and back");
                auto r = api::to_utf32(s);
                gives("to_utf32", r, t);
                set(api::from_utf32(api::TextV(r.v)), t);
            }
            }
        }

        void query()
        {
            auto n = t.size();
            gives("is_valid_utf8", api::is_valid_utf8(s), true);
            gives("count_codepoints", api::count_codepoints(s), n);
            gives("count_chars", api::count_chars(s), model::chars(t).size());
            auto o = model::offsets(t);
            if (n)
            {
                auto i = src.choose(0, n - 1);
                auto index = src.flag(1, 2) ? int64_t(i) : int64_t(i) - int64_t(n);
                gives("get_codepoint", api::get_codepoint(s, index), Hit{{o[i], o[i + 1] - o[i]}, t[i]});
            }
            auto c = n && src.flag(2, 3) ? t[src.choose(0, n - 1)] : cp();
            auto f = t.find(c), l = t.rfind(c);
            gives("contains", api::contains(s, c), f != Text::npos);
            auto cs = model::enc(c);
            gives_sub("find_first", api::find_first(s, cs), f == Text::npos ? std::nullopt : std::optional(Sub{o[f], cs.size()}));
            gives_sub("find_last", api::find_last(s, cs), l == Text::npos ? std::nullopt : std::optional(Sub{o[l], cs.size()}));
        }
    };
}

Property pbt::make_property()
{
    load_model();
    Property p;
    p.id = "C25";
    p.rule = "A case is a text and 1 to 60 edits (23 kinds, with arguments valid for the text so far), each applied to the "
             "library's previous result and to a list of code points; after every edit the string must be the encoded "
             "list, and validity, counts, indexing and searches must agree with it. Non-trivial: at least three edits "
             "changed the text.";
    p.run = [](Src& src, Ctx& ctx)
    {
        History(src, ctx).run();
    };
    p.quick_cases = 170000;
    p.thorough_cases = 10000000;
    return p;
}
