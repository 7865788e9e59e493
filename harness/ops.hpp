// Calls of every public function with generated arguments, as closures
// which give their result as text. For the checks which need "any call".
#pragma once
#include "common.hpp"
#include <cstring>
#include <set>

namespace ops
{
    struct Pool
    {
        std::vector<string> strings;
        std::vector<char32_t> alphabet;
        int kind = -1;               // of short strings
    };

    struct Call
    {
        string name;
        string text;                        // arguments, if described
        std::function<string()> run;
        bool odd = false;                   // some extreme argument
    };

    // Step results.
    inline string show_step(const Res<api::Step>& r)
    {
        auto& s = r.v;
        return (r.threw ? string("YstringException") : show(s.cp) + " " + show(s.ok)
               + (s.flag ? " flag" : "")) + " at " + show(s.pos) + ".." + show(s.end);
    }
    inline string show_tokens(const Res<std::vector<api::Token>>& r)
    {
        if (r.threw)
            return "YstringException";
        string s;
        for (auto& t : r.v)
            s += show(t.more) + show(t.has_token) + show(t.part) + show(t.token) + show(t.remainder) + ";";
        return s;
    }

    inline string any_bytes(Src& src, size_t max = 200000)
    {
        static const unsigned focus[] = {gen::ANY, gen::ESCAPES, gen::MARKS | gen::LETTERS, gen::NORM | gen::MARKS,
                                         gen::NEWLINES | gen::SPACES, gen::CASE, gen::ASCII | gen::ESCAPES, gen::EDGES};
        auto f = focus[src.choose(0, 7)];
        switch (src.weighted({6, 4, 3, 1, 1, f & gen::ESCAPES ? 10u : 1u}))
        {
        case 0: return gen::bytes(src, f);
        case 1: return model::enc(gen::text(src, f));
        case 2:
        {
            // Text which breaks off somewhere, at either end.
            auto s = model::enc(gen::text(src, f));
            auto e = src.choose_by(0, 4, [&]() {return src.raw(5);});
            s.resize(s.size() - std::min<size_t>(e, s.size()));
            return s.substr(std::min<size_t>(src.choose(0, 2), s.size()));
        }
        case 3:
        {
            // Something over and over.
            auto u = src.flag(1, 2) ? gen::broken(src) : model::enc(gen::cp(src, f));
            auto n = src.choose_by(0, 30000, [&]() {return src.raw(10) ? src.raw(200) : src.raw(30001);});
            string s;
            while (n-- && s.size() < max)
                s += u;
            return s;
        }
        case 4:
        {
            // Plain random bytes.
            string s;
            auto n = src.choose(0, 12);
            while (n--)
                s += char(src.choose(0, 255));
            return s;
        }
        default:
        {
            // Escape sequences, with something between.
            string s;
            auto n = src.choose_by(1, 12, [&]() {return 1 + src.raw(src.raw(3) ? 3 : 12);});
            while (n--)
            {
                if (src.flag(1, 3))
                    s += model::enc(gen::cp(src, f));
                s += gen::escape(src);
            }
            return s;
        }
        }
    }

    inline Pool make_pool(Src& src, Ctx& ctx, size_t n, size_t max = 200000)
    {
        Pool p;
        for (size_t i = 0; i < n; ++i)
        {
            auto big = i == 0 && src.flag(1, 8);
            p.strings.push_back(any_bytes(src, big ? max : 600));
            if (!big && p.strings.back().size() > 3000)
                p.strings.back().resize(3000);
            ctx.note("pool", p.strings.back());
        }
        p.alphabet = gen::alphabet(src, gen::ANY, 4);
        return p;
    }

    // Several short strings of one kind, for finding results which depend on
    // what the previous arguments were.
    inline Pool make_short_pool(Src& src, Ctx& ctx)
    {
        static const unsigned focus[] = {gen::NORM, gen::CASE, gen::ESCAPES, gen::MARKS | gen::LETTERS,
                                         gen::NEWLINES | gen::SPACES, gen::EDGES, gen::ANY};
        Pool p;
        p.kind = int(src.choose(0, 6));
        p.alphabet = gen::alphabet(src, focus[p.kind], 12);
        auto n = src.choose(3, 10);
        while (n--)
        {
            auto s = p.kind == 2 && src.flag(2, 3) ? string()
                                                   : model::enc(gen::text(src, p.alphabet, focus[p.kind], 2));
            if (s.empty() && p.kind == 2)
                for (auto k = src.choose(1, 2); k--;)
                    s += gen::escape(src);
            if (src.flag(1, 12))
                s += gen::broken(src);
            p.strings.push_back(s);
            ctx.note("pool", s);
        }
        return p;
    }

    class Maker
    {
    public:
        // Mostly only a few functions are called, so that calls of the same
        // function follow each other.
        Maker(Src& src, const Pool& pool, bool describe)
            : src(src), pool(pool), describe(describe)
        {
            if (src.flag(3, 4))
            {
                static const std::vector<size_t> kinds[] = {
                    {16, 18, 20}, {13, 14, 15, 12, 64, 65, 67, 68, 71}, {73, 73, 73}, {24, 38, 39, 44, 45, 56, 36},
                    {30, 31, 59, 60, 61}, {12, 23, 32, 36}};
                auto n = src.choose(1, 3);
                while (n--)
                {
                    if (pool.kind >= 0 && pool.kind < 6 && src.flag(2, 3))
                        focus.push_back(kinds[pool.kind][src.choose(0, kinds[pool.kind].size() - 1)]);
                    else
                        focus.push_back(src.choose(0, N - 1));
                }
            }
        }

        Call make()
        {
            call = Call();
            static const size_t n = count();
            which = focus.empty() || src.flag(1, 10) ? src.choose(0, n - 1) : focus[src.choose(0, focus.size() - 1)];
            build();
            return std::move(call);
        }

        static size_t count() {return N;}

    private:
        static constexpr size_t N = 74;
        Src& src;
        const Pool& pool;
        bool describe;
        Call call;
        size_t which = 0;
        std::vector<size_t> focus;

        void arg(const string& s)
        {
            if (describe)
                call.text += (call.text.empty() ? "" : ", ") + s;
        }

        string S()
        {
            auto& s = pool.strings[src.choose(0, pool.strings.size() - 1)];
            string r = s;
            switch (src.weighted({8, 1, 1}))
            {
            case 0: break;
            case 1:
                r = s.substr(src.choose(0, s.size()));
                r.resize(src.choose(0, r.size()));
                break;
            default:
                r = any_bytes(src, 600);
            }
            arg(show(r));
            return r;
        }
        // A (mostly short) needle for s.
        string needle(const string& s)
        {
            string r;
            switch (src.weighted({6, 1, 1, 1}))
            {
            case 0:
                r = s.substr(src.choose(0, s.size()));
                r.resize(src.choose_by(0, r.size(), [&]() {return std::min<uint64_t>(src.raw(5), r.size());}));
                break;
            case 1: break;
            case 2: r = model::enc(src.pick(const_cast<std::vector<char32_t>&>(pool.alphabet))); break;
            default: r = gen::bytes(src); r.resize(std::min<size_t>(r.size(), 50));
            }
            // Naive searches take time proportional to the product.
            if (s.size() > 4000 && r.size() > 40)
                r.resize(40);
            arg(show(r));
            return r;
        }
        string to()
        {
            auto r = src.flag(1, 2) ? model::enc(gen::text(src, pool.alphabet, gen::ANY, 2)) : gen::bytes(src);
            r.resize(std::min<size_t>(r.size(), 60));
            arg(show(r));
            return r;
        }
        ptrdiff_t index(size_t n)
        {
            auto i = gen::index(src, n);
            call.odd |= i < -ptrdiff_t(n) || i > ptrdiff_t(n);
            arg(std::to_string(i));
            return i;
        }
        std::optional<ptrdiff_t> opt_index(size_t n)
        {
            if (src.flag(1, 8))
                return {};
            return index(n);
        }
        size_t offset(size_t n)
        {
            auto i = src.choose_by(0, n, [&]() -> uint64_t
            {
                switch (src.raw(4))
                {
                case 0: return 0;
                case 1: return n;
                default: return src.raw(n + 1);
                }
            });
            arg(std::to_string(i));
            return i;
        }
        std::optional<size_t> opt_offset(size_t n)
        {
            if (src.flag(1, 3))
                return {};
            return offset(n);
        }
        // For backward searches any offset will do.
        std::optional<size_t> any_offset(size_t n)
        {
            if (src.flag(1, 3))
                return {};
            if (src.flag(1, 6))
            {
                auto i = gen::limit(src, n);
                arg(std::to_string(i));
                return i;
            }
            return offset(n);
        }
        char32_t C()
        {
            char32_t c;
            if (src.flag(1, 8))
            {
                c = gen::big(src);
                call.odd |= c > model::MAX;
            }
            else
                c = src.flag(1, 2) ? pool.alphabet[src.choose(0, pool.alphabet.size() - 1)] : gen::cp(src);
            arg(show(c));
            return c;
        }
        std::optional<char32_t> opt_C()
        {
            if (src.flag(1, 3))
                return {};
            return C();
        }
        Text list()
        {
            Text r;
            while (r.size() < 20 && src.flag(3, 4))
                r += src.flag(1, 2) ? pool.alphabet[src.choose(0, pool.alphabet.size() - 1)]
                     : src.flag(1, 12) ? gen::big(src) : gen::cp(src);
            arg(show(r));
            return r;
        }
        api::SetSpec set()
        {
            api::SetSpec s;
            auto n = src.choose(0, 4);
            while (n--)
            {
                if (src.flag(1, 4))
                {
                    s.ops.push_back({0, 0, 2});
                    s.texts.push_back(list());
                    continue;
                }
                auto c = C(), d = src.flag(1, 3) ? C() : char32_t(c + src.choose(0, 300));
                s.ops.push_back({std::min(c, d), std::max(c, d), int(src.choose(0, 1))});
            }
            s.negated = src.flag(1, 4);
            return s;
        }
        api::Params params(size_t n)
        {
            api::Params p;
            p.defaults = src.flag(1, 4);
            if (!p.defaults)
            {
                p.max = src.flag(1, 2) ? gen::limit(src, n) : SIZE_MAX;
                p.ignore_empty = src.flag(1, 2);
            }
            arg(p.defaults ? "defaults" : std::to_string(p.max) + (p.ignore_empty ? " ignore_empty" : ""));
            return p;
        }
        std::optional<ptrdiff_t> max()
        {
            if (src.flag(1, 4))
                return {};
            return index(4);
        }
        api::Pred pred()
        {
            auto m = uint32_t(src.choose(1, 7)), k = uint32_t(src.choose(0, 6));
            arg("predicate " + std::to_string(m) + "," + std::to_string(k));
            return [m, k](char32_t c) {return c % m == k % m;};
        }
        api::Finder finder()
        {
            auto k = src.choose(0, 3);
            auto b = char(src.choose(0, 255));
            arg("finder " + std::to_string(k) + "," + std::to_string((unsigned char)b));
            if (k == 3)
                return [](api::Bytes s) {return api::find_first_newline(s).v;};
            return [k, b](api::Bytes s) -> Sub
            {
                auto p = s.find(b);
                return p == s.npos ? Sub{s.size(), 0} : Sub{p, std::min<size_t>(k + 1, s.size() - p)};
            };
        }
        api::It it()
        {
            auto i = src.choose(0, 4);
            arg("iterator " + std::to_string(i));
            return api::It(i);
        }

        void build()
        {
            auto set_run = [&](const char* name, auto f)
            {
                call.name = name;
                call.run = [f]() {return show(f());};
            };
            auto set_step = [&](const char* name, auto f)
            {
                call.name = name;
                call.run = [f]() {return show_step(f());};
            };
#define STEP(NAME) {auto s = S(); auto p = offset(s.size()); auto i = it(); \
            set_step(#NAME, [=]() {return api::NAME(s, p, i);}); break;}
#define STEP_V(NAME) {auto s = S(); set_step(#NAME, [=]() {return api::NAME(s);}); break;}
#define ONE(NAME) {auto s = S(); set_run(#NAME, [=]() {return api::NAME(s);}); break;}
#define FN(NAME, EXPR) {auto s = S(); auto n = s.size(); (void)n; EXPR; set_run(#NAME, [=]() {return api::NAME
#define END ;}); break;}
            switch (which)
            {
            case 0: STEP(decode_next)
            case 1: STEP(decode_prev)
            case 2: STEP(safe_decode_next)
            case 3: STEP(safe_decode_prev)
            case 4: STEP(skip_next)
            case 5: STEP(skip_prev)
            case 6: STEP_V(pop_utf8_codepoint)
            case 7: STEP_V(pop_last_utf8_codepoint)
            case 8: STEP_V(remove_utf8_codepoint)
            case 9: STEP_V(remove_last_utf8_codepoint)
            case 10:
            {
                auto c = C();
                auto t = list();
                call.name = "from_utf32";
                call.run = [=]() {return show(api::from_utf32(c)) + show(api::from_utf32(api::TextV(t)));};
                break;
            }
            case 11: ONE(to_utf32)
            case 12:
            {
                auto c = C();
                call.name = "classes and mappings";
                call.run = [=]()
                {
                    string r = show(api::get_char_class(c));
                    for (int i = 0; i < api::N_PREDICATES; ++i)
                        r += api::predicate(i, c) ? '1' : '0';
                    return r + show(api::to_lower(c)) + show(api::to_upper(c)) + show(api::to_title(c));
                };
                break;
            }
            case 13: ONE(to_lower)
            case 14: ONE(to_title)
            case 15: ONE(to_upper)
            case 16: case 17: ONE(to_composed)
            case 18: case 19: ONE(to_decomposed)
            case 20: {auto c = C(); set_run("decompose", [=]() {return api::decompose(c);}); break;}
            case 21: FN(append, auto c = C())(s, c) END
            case 22: FN(append_in_place, auto c = C())(s, c) END
            case 23: FN(contains, auto c = C())(s, c) END
            case 24: ONE(count_chars)
            case 25: ONE(count_codepoints)
            case 26: FN(ends_with, auto t = needle(s))(s, t) END
            case 27: FN(starts_with, auto t = needle(s))(s, t) END
            case 28: FN(find_first, auto t = needle(s); auto o = opt_offset(n))(s, t, o) END
            case 29: FN(find_last, auto t = needle(s); auto o = any_offset(n))(s, t, o) END
            case 30: FN(find_first_newline, auto o = opt_offset(n))(s, o) END
            case 31: FN(find_last_newline, auto o = any_offset(n))(s, o) END
            case 32: FN(find_first_of, auto t = list(); auto o = opt_offset(n))(s, t, o) END
            case 33: FN(find_last_of, auto t = list(); auto o = any_offset(n))(s, t, o) END
            case 34: FN(find_first_of_set, auto t = set(); auto o = opt_offset(n))(s, t, o) END
            case 35: FN(find_last_of_set, auto t = set(); auto o = any_offset(n))(s, t, o) END
            case 36: FN(find_first_where, auto t = pred(); auto o = opt_offset(n))(s, t, o) END
            case 37: FN(find_last_where, auto t = pred(); auto o = any_offset(n))(s, t, o) END
            case 38: FN(get_char_pos, auto i = index(n))(s, i) END
            case 39: FN(get_char_range, auto i = index(n))(s, i) END
            case 40: FN(get_char_substring, auto i = index(n); auto j = opt_index(n))(s, i, j) END
            case 41: FN(get_codepoint, auto i = index(n))(s, i) END
            case 42: FN(get_codepoint_pos, auto i = index(n))(s, i) END
            case 43: FN(get_codepoint_substring, auto i = index(n); auto j = opt_index(n))(s, i, j) END
            case 44: FN(get_next_char_range, auto o = offset(n))(s, o) END
            case 45: FN(get_prev_char_range, auto o = offset(n))(s, o) END
            case 46:
                if (src.flag(1, 2))
                    FN(insert_char, auto i = index(n); auto c = C())(s, i, c) END
                else
                    FN(insert_chars, auto i = index(n); auto t = to())(s, i, t) END
            case 47:
                if (src.flag(1, 2))
                    FN(insert_codepoint, auto i = index(n); auto c = C())(s, i, c) END
                else
                    FN(insert_codepoints, auto i = index(n); auto t = to())(s, i, t) END
            case 48: ONE(is_valid_utf8)
            case 49:
            {
                std::vector<string> parts;
                while (parts.size() < 8 && src.flag(2, 3))
                    parts.push_back(to());
                auto d = src.flag(1, 3) ? std::optional<string>() : to();
                bool views = src.flag(1, 2);
                set_run("join", [=]()
                {
                    return api::join(parts, d ? std::optional<api::Bytes>(*d) : std::nullopt, views);
                });
                break;
            }
            case 50: case 51: FN(replace, auto f = needle(s); auto t = to(); auto m = max())(s, f, t, m) END
            case 52: FN(replace_chars, auto i = index(n); auto j = index(n); auto t = to())(s, i, j, t) END
            case 53: FN(replace_codepoints, auto i = index(n); auto j = index(n); auto t = to())(s, i, j, t) END
            case 54: FN(replace_codepoint, auto f = C(); auto t = C(); auto m = max())(s, f, t, m) END
            case 55:
                if (src.flag(1, 2))
                    FN(replace_invalid_utf8, auto c = opt_C())(s, c) END
                else
                    FN(replace_invalid_utf8_in_place, auto c = opt_C())(s, c) END
            case 56: ONE(reverse)
            case 57: FN(split, auto t = needle(s); auto p = params(n))(s, t, p) END
            case 58: FN(split_chars, auto t = list(); auto p = params(n))(s, t, p) END
            case 59:
                if (src.flag(1, 2))
                    FN(split_lines, auto p = params(n))(s, p) END
                else
                    FN(split_where, auto f = finder(); auto p = params(n))(s, f, p) END
            case 60:
            {
                auto s = S();
                auto f = finder();
                call.name = "tokens";
                call.run = [=]() {return show_tokens(api::tokens(s, f));};
                break;
            }
            case 61:
            {
                auto s = S();
                auto k = int(src.choose(0, 2));
                auto t = src.flag(1, 2) ? std::optional<Text>(list()) : std::nullopt;
                arg("end " + std::to_string(k));
                set_run("trim", [=]() {return api::trim(k, s, t ? std::optional<api::TextV>(*t) : std::nullopt);});
                break;
            }
            case 62: {auto s = S(); auto k = int(src.choose(0, 2)); auto p = pred();
                      set_run("trim_where", [=]() {return api::trim_where(k, s, p);}); break;}
            case 63:
            {
                auto t = set();
                auto u = list();
                auto c = C(), d = C();
                bool f = src.flag(1, 2);
                call.name = "sets and comparisons";
                call.run = [=]()
                {
                    return show(api::set_contains(t, c)) + show(api::set_ci_contains(t, c)) + show(api::list_contains(u, c))
                           + show(api::list_ci_contains(u, c)) + show(api::ci_equal(c, d, f))
                           + show(api::ci_less(c, d, f)) + show(api::ci_compare(c & 0x7FFFFFFF, d & 0x7FFFFFFF, f));
                };
                break;
            }
            case 64:
            {
                auto a = S(), b = src.flag(1, 2) ? S() : needle(a);
                call.name = "ci::compare";
                call.run = [=]()
                {
                    return show(api::ci::compare(a, b)) + show(api::ci::equal(a, b)) + show(api::ci::less(a, b));
                };
                break;
            }
            case 65: FN(ci::starts_with, auto t = needle(s))(s, t) END
            case 66: FN(ci::ends_with, auto t = needle(s))(s, t) END
            case 67: FN(ci::find_first, auto t = needle(s); auto o = opt_offset(n))(s, t, o) END
            case 68: FN(ci::find_last, auto t = needle(s); auto o = any_offset(n))(s, t, o) END
            case 69:
                if (src.flag(1, 2))
                    FN(ci::find_first_of, auto t = list(); auto o = opt_offset(n))(s, t, o) END
                else
                    FN(ci::find_last_of, auto t = list(); auto o = any_offset(n))(s, t, o) END
            case 70:
                if (src.flag(1, 2))
                    FN(ci::find_first_of_set, auto t = set(); auto o = opt_offset(n))(s, t, o) END
                else
                    FN(ci::find_last_of_set, auto t = set(); auto o = any_offset(n))(s, t, o) END
            case 71: FN(ci::replace, auto f = needle(s); auto t = to(); auto m = max())(s, f, t, m) END
            case 72:
                if (src.flag(1, 2))
                    FN(ci::split, auto t = needle(s); auto p = params(n))(s, t, p) END
                else
                    FN(ci::split_chars, auto t = list(); auto p = params(n))(s, t, p) END
            default:
                switch (src.choose(0, 7))
                {
                case 0: FN(find_first_escapable_char, auto o = opt_offset(n))(s, o) END
                case 1: ONE(has_escapable_chars)
                case 2: ONE(escape_json)
                case 3: FN(find_first_escaped_char, auto o = opt_offset(n))(s, o) END
                case 4: ONE(has_escaped_chars)
                case 5:
                {
                    auto s = S();
                    call.name = "unescape";
                    call.run = [=]()
                    {
                        size_t n = 0;
                        auto b = api::unescape_buffer(s, &n);
                        return show(api::unescape(s)) + show(b) + show(n);
                    };
                    break;
                }
                default:
                {
                    auto s = S();
                    bool f = src.flag(1, 2);
                    set_step("unescape_next", [=]() {return api::unescape_next(s, f);});
                }
                }
            }
#undef STEP
#undef STEP_V
#undef ONE
#undef FN
#undef END
        }
    };

    inline void note_calls(Ctx& ctx, const std::vector<Call>& calls)
    {
        if (!ctx.describe)
            return;
        for (auto& c : calls)
            ctx.text += " " + c.name + "(" + c.text + ");";
    }

    // Class names live as long as the process.
    inline const char* intern(const string& s)
    {
        static std::set<string> names;
        return names.insert(s).first->c_str();
    }

    inline api::Placement gen_placement(Src& src)
    {
        api::Placement p;
        p.null_empty = src.flag(1, 4);
        p.overlap = src.flag(1, 4);
        p.embed = src.flag(1, 2);
        if (p.embed)
        {
            // Bytes which would continue or complete what is cut off.
            static const char* const parts[] = {"", "\x80\x80\x80\x80", "\xF0\x9F\x98", "\xCC\x81\xCC\x88", "abc", "\\", "\n",
                                                "\\u0041", "41", "\xC3", "\xED\xA0\x80", "\xE2\x80\xA8"};
            auto gen = [&]()
            {
                string r = parts[src.choose(0, std::size(parts) - 1)];
                if (src.flag(1, 3))
                    r += parts[src.choose(0, std::size(parts) - 1)];
                return r;
            };
            p.before = gen();
            p.after = gen();
            p.shift = unsigned(src.choose(0, 17));
        }
        if (src.flag(1, 3))
        {
            p.alter = unsigned(src.choose(1, 5));
            p.alter_at = unsigned(src.choose_by(0, 999, [&]() {return src.raw(src.raw(2) ? 8 : 1000);}));
            p.alter_by = unsigned(src.choose(1, 255));
        }
        return p;
    }
}
