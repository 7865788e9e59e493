#include "api.hpp"
#include "engine.hpp"

#include <cstdlib>
#include <cstring>
#include <list>
#include <sstream>
#include <typeinfo>
#include <Ystring/Algorithms.hpp>
#include <Ystring/CaseInsensitive.hpp>
#include <Ystring/CharClass.hpp>
#include <Ystring/CodepointConstants.hpp>
#include <Ystring/CodepointPredicates.hpp>
#include <Ystring/CodepointSet.hpp>
#include <Ystring/ConvertCase.hpp>
#include <Ystring/DecodeUtf8.hpp>
#include <Ystring/Escape.hpp>
#include <Ystring/Normalize.hpp>
#include <Ystring/Subrange.hpp>
#include <Ystring/TokenIterator.hpp>
#include <Ystring/Unescape.hpp>
#include <Ystring/Utf32.hpp>
#include <Ystring/YstringException.hpp>

namespace y = ystring;
using pbt::fail;

namespace api
{
    thread_local Placement placement;
    constinit thread_local bool inside = false, starved = false;

    namespace
    {
        // Bytes on the heap, with nothing accessible beyond them (or between
        // given bytes, when so told).
        template <typename C>
        class In
        {
        public:
            explicit In(std::basic_string_view<C> s)
                : m_copy(s)
            {
                // This allocation is not the library's.
                struct Outside
                {
                    bool was = inside;
                    Outside() {inside = false;}
                    ~Outside() {inside = was;}
                } outside;
                size_t n = s.size() * sizeof(C);
                if constexpr (sizeof(C) == 1)
                {
                    if (placement.overlap && n)
                        for (auto in : live())
                            if (auto i = place_in(in->view(), s); i != s.npos)
                            {
                                m_data = in->m_data + i;
                                return;
                            }
                    live().push_back(this);
                }
                if (n == 0 && placement.null_empty)
                    return;
                if (placement.embed)
                {
                    size_t b = (placement.before.size() + placement.shift) * sizeof(C);
                    size_t a = placement.after.size() * sizeof(C);
                    m_mem = (char*)malloc(b + n + a + 1);
                    memset(m_mem, 0x80, b + n + a + 1);
                    if constexpr (sizeof(C) == 1)
                    {
                        memcpy(m_mem + placement.shift, placement.before.data(), placement.before.size());
                        memcpy(m_mem + b + n, placement.after.data(), placement.after.size());
                    }
                    m_data = (C*)(m_mem + b);
                }
                else if (n == 0)
                {
                    m_mem = (char*)malloc(sizeof(C));
                    m_data = (C*)(m_mem + sizeof(C));
                }
                else
                {
                    m_mem = (char*)malloc(n);
                    m_data = (C*)m_mem;
                }
                if (n)
                    memcpy((void*)m_data, s.data(), n);
            }
            ~In()
            {
                if constexpr (sizeof(C) == 1)
                    std::erase(live(), this);
                free(m_mem);
            }
            In(const In&) = delete;

            std::basic_string_view<C> view() const
            {
                return {m_data, m_copy.size()};
            }
            C* data() {return m_data;}
            size_t size() const {return m_copy.size();}

            // Other bytes for a while, see Placement.
            void alter()
            {
                if (!m_mem || !size())
                    return;
                auto p = (char*)m_data;
                auto n = size();
                auto k = placement.alter_at % n;
                switch (placement.alter)
                {
                case 1: memset(p, 'a', n); break;
                case 2: p[k] = char(p[k] ^ placement.alter_by); break;
                case 3: std::reverse(p, p + n); break;
                case 4: std::rotate(p, p + k, p + n); break;
                default:
                    // Some code points of two bytes.
                    for (size_t i = k; i + 1 < n && i < k + 16; i += 2)
                    {
                        p[i] = '\xC3';
                        p[i + 1] = '\xA6';
                    }
                }
            }
            void restore()
            {
                if (m_mem && size())
                    memcpy((void*)m_data, m_copy.data(), size() * sizeof(C));
            }

            void unchanged(const char* fn) const
            {
                if (size() && memcmp(m_data, m_copy.data(), size() * sizeof(C)) != 0)
                    fail(std::string(fn) + " modified its input");
            }
            View rel(std::string_view v, const char* fn) const
                requires (sizeof(C) == 1)
            {
                auto p = (const char*)m_data;
                if (v.data() && std::less_equal<>()(p, v.data())
                    && std::less_equal<>()(v.data() + v.size(), p + size()) && p)
                    return {size_t(v.data() - p), v.size()};
                if (v.empty())
                    return {SIZE_MAX, 0};
                fail(std::string(fn) + " returned a view outside its input");
            }
            Sub rel(y::Subrange r, const char* fn) const
            {
                if (r.length != 0 && (r.offset > size() || r.length > size() - r.offset))
                    fail(std::string(fn) + " returned a range outside its input: offset "
                         + std::to_string(r.offset) + " length " + std::to_string(r.length)
                         + " of " + std::to_string(size()));
                return {r.offset, r.length};
            }
            static std::vector<In*>& live()
            {
                thread_local std::vector<In*> v;
                return v;
            }
        private:
            static size_t place_in(std::basic_string_view<C> in, std::basic_string_view<C> s)
            {
                // Finding takes long in long runs of something.
                if (in.size() * s.size() <= 1 << 14)
                    return in.find(s);
                return in.starts_with(s) ? 0 : in.ends_with(s) ? in.size() - s.size() : s.npos;
            }

            std::basic_string<C> m_copy;
            char* m_mem = nullptr;
            C* m_data = nullptr;
        };
        using InB = In<char>;
        using InT = In<char32_t>;

        template <typename F>
        auto guard(const char* fn, F&& f) -> Res<decltype(f())>
        {
            struct Inside
            {
                bool was = inside;
                Inside() {inside = true;}
                ~Inside() {inside = was;}
            };
            try
            {
                Inside i;
                return {false, f()};
            }
            catch (y::YstringException&)
            {
                return {true, {}};
            }
            catch (pbt::Failure&)
            {
                throw;
            }
            catch (std::bad_alloc&)
            {
                if (starved)
                    throw OutOfMemory();
                fail(std::string(fn) + " threw std::bad_alloc");
            }
            catch (CallbackError&)
            {
                throw;
            }
            catch (OutOfMemory&)
            {
                throw;
            }
            catch (std::exception& e)
            {
                fail(std::string(fn) + " threw " + typeid(e).name() + ": " + e.what());
            }
            catch (...)
            {
                fail(std::string(fn) + " threw something which is not an exception");
            }
        }

        // A call which may be made with other arguments first.
        template <typename F>
        auto run(const char* fn, F&& f)
        {
            if (placement.alter)
            {
                for (auto in : InB::live())
                    in->alter();
                try
                {
                    (void)f();
                }
                catch (...)
                {}
                for (auto in : InB::live())
                    in->restore();
            }
            return guard(fn, f);
        }

        template <typename T, typename... Ins>
        T done(const char* fn, T r, const Ins&... ins)
        {
            (ins.unchanged(fn), ...);
            return r;
        }

        y::CodepointSet make(const SetSpec& s)
        {
            y::CodepointSet r;
            size_t k = 0;
            for (auto& o : s.ops)
            {
                if (o.kind == 0)
                    r.add_codepoint(o.first);
                else if (o.kind == 1)
                    r.add_range(o.first, o.last);
                else if (o.kind == 2)
                    r.add_codepoints(s.texts[k++]);
                else if (o.kind == SetSpec::ASK)
                {
                    (void)r.contains(o.first);
                    (void)r.case_insensitive_contains(o.last);
                    r.negated = s.negated;
                }
                else if (o.kind == SetSpec::COPY)
                {
                    // The original goes its own way.
                    auto c = r;
                    std::swap(c, r);
                    c.add_codepoint(o.first);
                    c.negated = !s.negated;
                    (void)c.contains(o.first);
                }
                else
                {
                    auto c = std::move(r);
                    r = y::CodepointSet();
                    r.add_range(o.first, o.last);
                    (void)r.contains(o.first);
                    r = std::move(c);
                }
            }
            r.negated = s.negated;
            return r;
        }

        Views rel(const InB& in, const std::vector<std::string_view>& v, const char* fn)
        {
            Views r;
            for (auto& e : v)
                r.push_back(in.rel(e, fn));
            return r;
        }

        template <typename Container, typename F>
        Res<Step> with_container(Bytes s, size_t pos, bool with_end, F f)
        {
            Container c(s.begin(), s.end());
            auto begin = c.begin(), end = c.end();
            auto it = std::next(begin, ptrdiff_t(pos));
            (void)with_end;
            auto r = guard("iterator function", [&]() {return f(begin, it, end);});
            // Report the position after an exception too.
            r.v.pos = size_t(std::distance(begin, it));
            return r;
        }

        template <typename F>
        Res<Step> with_iterators(Bytes s, size_t pos, It kind, F f)
        {
            switch (kind)
            {
            case It::LIST:
                return with_container<std::list<char>>(s, pos, true, f);
            case It::STRING:
                return with_container<std::string>(s, pos, true, f);
            case It::U8:
                return with_container<std::vector<unsigned char>>(s, pos, true, f);
            default:
                break;
            }
            InB in(s);
            const char* begin = in.data();
            const char* end = begin + in.size();
            const char* it = begin + pos;
            auto r = guard("iterator function", [&]() {return f(begin, it, end);});
            if (it < begin || it > end)
                fail("an iterator was moved out of its range");
            r.v.pos = size_t(it - begin);
            in.unchanged("iterator function");
            return r;
        }
    }

#define RUN(fn, expr) run(#fn, [&]() {return expr;})
#define R1(fn, expr) InB in(s); return done(#fn, RUN(fn, expr), in)
#define R2(fn, expr) InB in(s), in2(s2); return done(#fn, RUN(fn, expr), in, in2)
#define R3(fn, expr) InB in(s), in2(s2), in3(s3); return done(#fn, RUN(fn, expr), in, in2, in3)
#define RT(fn, expr) InB in(s); InT in2(s2); return done(#fn, RUN(fn, expr), in, in2)

    Res<Step> decode_next(Bytes s, size_t pos, It k)
    {
        return with_iterators(s, pos, k, [](auto, auto& it, auto end)
            {Step r; r.cp = y::decode_next(it, end); return r;});
    }
    Res<Step> decode_prev(Bytes s, size_t pos, It k)
    {
        return with_iterators(s, pos, k, [](auto begin, auto& it, auto)
            {Step r; r.cp = y::decode_prev(begin, it); return r;});
    }
    Res<Step> safe_decode_next(Bytes s, size_t pos, It k)
    {
        return with_iterators(s, pos, k, [](auto, auto& it, auto end)
        {
            Step r;
            char32_t c = 0;
            r.ok = y::safe_decode_next(it, end, c);
            if (r.ok)
                r.cp = c;
            return r;
        });
    }
    Res<Step> safe_decode_prev(Bytes s, size_t pos, It k)
    {
        return with_iterators(s, pos, k, [](auto begin, auto& it, auto)
        {
            Step r;
            char32_t c = 0;
            r.ok = y::safe_decode_prev(begin, it, c);
            if (r.ok)
                r.cp = c;
            return r;
        });
    }
    Res<Step> skip_next(Bytes s, size_t pos, It k)
    {
        return with_iterators(s, pos, k, [](auto, auto& it, auto end)
            {Step r; r.ok = y::skip_next(it, end); return r;});
    }
    Res<Step> skip_prev(Bytes s, size_t pos, It k)
    {
        return with_iterators(s, pos, k, [](auto begin, auto& it, auto)
            {Step r; r.ok = y::skip_prev(begin, it); return r;});
    }

    namespace
    {
        template <typename F>
        Res<Step> with_view(const char* fn, Bytes s, F f)
        {
            InB in(s);
            auto v = in.view();
            auto r = guard(fn, [&]() {return f(v);});
            in.unchanged(fn);
            if (v.data() == nullptr && in.data() == nullptr)
            {
                r.v.pos = r.v.end = 0;
                return r;
            }
            if (v.data() == nullptr && v.empty())
            {
                r.v.pos = r.v.end = in.size();
                return r;
            }
            if (std::less<>()(v.data(), (const char*)in.data())
                || std::less<>()((const char*)in.data() + in.size(), v.data() + v.size()))
                fail(std::string(fn) + " moved the view out of its range");
            r.v.pos = size_t(v.data() - in.data());
            r.v.end = r.v.pos + v.size();
            return r;
        }
    }

    Res<Step> pop_utf8_codepoint(Bytes s)
    {
        return with_view("pop_utf8_codepoint", s, [](auto& v)
            {Step r; r.cp = y::pop_utf8_codepoint(v); return r;});
    }
    Res<Step> pop_last_utf8_codepoint(Bytes s)
    {
        return with_view("pop_last_utf8_codepoint", s, [](auto& v)
            {Step r; r.cp = y::pop_last_utf8_codepoint(v); return r;});
    }
    Res<Step> remove_utf8_codepoint(Bytes s)
    {
        return with_view("remove_utf8_codepoint", s, [](auto& v)
            {Step r; r.ok = y::remove_utf8_codepoint(v); return r;});
    }
    Res<Step> remove_last_utf8_codepoint(Bytes s)
    {
        return with_view("remove_last_utf8_codepoint", s, [](auto& v)
            {Step r; r.ok = y::remove_last_utf8_codepoint(v); return r;});
    }

    Res<std::string> from_utf32(char32_t c)
    {
        return RUN(from_utf32, y::from_utf32(c));
    }
    Res<std::string> from_utf32(TextV s)
    {
        InT in(s);
        return done("from_utf32", RUN(from_utf32, y::from_utf32(in.view())), in);
    }
    Res<Text> to_utf32(Bytes s) {R1(to_utf32, y::to_utf32(in.view()));}

    uint32_t get_char_class(char32_t c) {return y::get_char_class(c);}

    const char* const PREDICATE_NAMES[N_PREDICATES] = {
        "is_alpha_numeric", "is_cased_letter", "is_control", "is_format",
        "is_graphical", "is_hex_digit", "is_letter", "is_lower", "is_mark",
        "is_newline", "is_number", "is_punctuation", "is_separator",
        "is_surrogate", "is_symbol", "is_upper", "is_visible",
        "is_whitespace", "is_cased_letter"};
    bool predicate(int i, char32_t c)
    {
        switch (i)
        {
        case 0: return y::is_alpha_numeric(c);
        case 1: return y::is_cased_letter(c);
        case 2: return y::is_control(c);
        case 3: return y::is_format(c);
        case 4: return y::is_graphical(c);
        case 5: return y::is_hex_digit(c);
        case 6: return y::is_letter(c);
        case 7: return y::is_lower(c);
        case 8: return y::is_mark(c);
        case 9: return y::is_newline(c);
        case 10: return y::is_number(c);
        case 11: return y::is_punctuation(c);
        case 12: return y::is_separator(c);
        case 13: return y::is_surrogate(c);
        case 14: return y::is_symbol(c);
        case 15: return y::is_upper(c);
        case 16: return y::is_visible(c);
        case 17: return y::is_whitespace(c);
        default: return y::is_cased_letter(c);
        }
    }

    char32_t to_lower(char32_t c) {return y::to_lower(c);}
    char32_t to_title(char32_t c) {return y::to_title(c);}
    char32_t to_upper(char32_t c) {return y::to_upper(c);}
    Res<std::string> to_lower(Bytes s) {R1(to_lower, y::to_lower(in.view()));}
    Res<std::string> to_title(Bytes s) {R1(to_title, y::to_title(in.view()));}
    Res<std::string> to_upper(Bytes s) {R1(to_upper, y::to_upper(in.view()));}

    Res<std::string> to_composed(Bytes s) {R1(to_composed, y::to_composed(in.view()));}
    Res<std::string> to_decomposed(Bytes s) {R1(to_decomposed, y::to_decomposed(in.view()));}
    Res<Text> decompose(char32_t c) {return RUN(decompose, y::decompose(c));}

    Text ascii_whitespace() {return Text(std::u32string_view(y::ASCII_WHITESPACE));}
    Text common_whitespace() {return Text(std::u32string_view(y::COMMON_WHITESPACE));}

    namespace
    {
        // Calls what changes t, unless memory runs out.
        template <typename F>
        auto kept(const std::string& t, Bytes s, const bool& changed, const char* fn, F f)
        {
            try
            {
                return guard(fn, f);
            }
            catch (OutOfMemory&)
            {
                if (!changed && t != s)
                    fail(std::string(fn) + " runs out of memory and has changed the string to " + pbt::quote(t));
                throw;
            }
        }
    }
    Res<std::string> append_in_place(Bytes s, char32_t c, std::string* after)
    {
        std::string t;
        t.reserve(s.size() + placement.spare);
        t = s;
        bool appended = false;
        auto r = kept(t, s, appended, "append", [&]()
        {
            auto& u = y::append(t, c);
            appended = true;
            if (&u != &t)
                fail("append returned another string");
            return t;
        });
        if (after)
            *after = t;
        return r;
    }
    Res<std::string> append(Bytes s, char32_t c) {R1(append, y::append(in.view(), c));}
    Res<bool> contains(Bytes s, char32_t c) {R1(contains, y::contains(in.view(), c));}
    Res<size_t> count_chars(Bytes s) {R1(count_chars, y::count_chars(in.view()));}
    Res<size_t> count_codepoints(Bytes s) {R1(count_codepoints, y::count_codepoints(in.view()));}
    Res<bool> ends_with(Bytes s, Bytes s2) {R2(ends_with, y::ends_with(in.view(), in2.view()));}
    Res<bool> starts_with(Bytes s, Bytes s2) {R2(starts_with, y::starts_with(in.view(), in2.view()));}

    using Off = std::optional<size_t>;

    Res<Sub> find_first(Bytes s, Bytes s2, Off o)
    {
        R2(find_first, in.rel(o ? y::find_first(in.view(), in2.view(), *o)
                                : y::find_first(in.view(), in2.view()), "find_first"));
    }
    Res<Sub> find_last(Bytes s, Bytes s2, Off o)
    {
        R2(find_last, in.rel(o ? y::find_last(in.view(), in2.view(), *o)
                               : y::find_last(in.view(), in2.view()), "find_last"));
    }
    Res<Sub> find_first_newline(Bytes s, Off o)
    {
        R1(find_first_newline, in.rel(o ? y::find_first_newline(in.view(), *o)
                                        : y::find_first_newline(in.view()), "find_first_newline"));
    }
    Res<Sub> find_last_newline(Bytes s, Off o)
    {
        R1(find_last_newline, in.rel(o ? y::find_last_newline(in.view(), *o)
                                       : y::find_last_newline(in.view()), "find_last_newline"));
    }
    namespace
    {
        Hit rel(const InB& in, std::pair<y::Subrange, char32_t> p, const char* fn)
        {
            return {in.rel(p.first, fn), p.second};
        }
    }
    Res<Hit> find_first_of(Bytes s, TextV s2, Off o)
    {
        RT(find_first_of, rel(in, o ? y::find_first_of(in.view(), in2.view(), *o)
                                    : y::find_first_of(in.view(), in2.view()), "find_first_of"));
    }
    Res<Hit> find_last_of(Bytes s, TextV s2, Off o)
    {
        RT(find_last_of, rel(in, o ? y::find_last_of(in.view(), in2.view(), *o)
                                   : y::find_last_of(in.view(), in2.view()), "find_last_of"));
    }
    Res<Hit> find_first_of_set(Bytes s, const SetSpec& set, Off o)
    {
        auto cs = make(set);
        R1(find_first_of, rel(in, o ? y::find_first_of(in.view(), cs, *o)
                                    : y::find_first_of(in.view(), cs), "find_first_of"));
    }
    Res<Hit> find_last_of_set(Bytes s, const SetSpec& set, Off o)
    {
        auto cs = make(set);
        R1(find_last_of, rel(in, o ? y::find_last_of(in.view(), cs, *o)
                                   : y::find_last_of(in.view(), cs), "find_last_of"));
    }
    Res<Hit> find_first_where(Bytes s, const Pred& p, Off o)
    {
        R1(find_first_where, rel(in, o ? y::find_first_where(in.view(), p, *o)
                                       : y::find_first_where(in.view(), p), "find_first_where"));
    }
    Res<Hit> find_last_where(Bytes s, const Pred& p, Off o)
    {
        R1(find_last_where, rel(in, o ? y::find_last_where(in.view(), p, *o)
                                      : y::find_last_where(in.view(), p), "find_last_where"));
    }
    Res<size_t> get_char_pos(Bytes s, ptrdiff_t pos) {R1(get_char_pos, y::get_char_pos(in.view(), pos));}
    Res<Sub> get_char_range(Bytes s, ptrdiff_t pos)
    {
        R1(get_char_range, in.rel(y::get_char_range(in.view(), pos), "get_char_range"));
    }
    Res<View> get_char_substring(Bytes s, ptrdiff_t start, std::optional<ptrdiff_t> end)
    {
        R1(get_char_substring, in.rel(end ? y::get_char_substring(in.view(), start, *end)
                                          : y::get_char_substring(in.view(), start), "get_char_substring"));
    }
    Res<Hit> get_codepoint(Bytes s, ptrdiff_t pos)
    {
        R1(get_codepoint, rel(in, y::get_codepoint(in.view(), pos), "get_codepoint"));
    }
    Res<size_t> get_codepoint_pos(Bytes s, ptrdiff_t pos)
    {
        R1(get_codepoint_pos, y::get_codepoint_pos(in.view(), pos));
    }
    Res<View> get_codepoint_substring(Bytes s, ptrdiff_t start, std::optional<ptrdiff_t> end)
    {
        R1(get_codepoint_substring,
           in.rel(end ? y::get_codepoint_substring(in.view(), start, *end)
                      : y::get_codepoint_substring(in.view(), start), "get_codepoint_substring"));
    }
    Res<Sub> get_next_char_range(Bytes s, size_t off)
    {
        R1(get_next_char_range, in.rel(y::get_next_char_range(in.view(), off), "get_next_char_range"));
    }
    Res<Sub> get_prev_char_range(Bytes s, size_t off)
    {
        R1(get_prev_char_range, in.rel(y::get_prev_char_range(in.view(), off), "get_prev_char_range"));
    }
    Res<std::string> insert_char(Bytes s, ptrdiff_t pos, char32_t c)
    {
        R1(insert_char, y::insert_char(in.view(), pos, c));
    }
    Res<std::string> insert_chars(Bytes s, ptrdiff_t pos, Bytes s2)
    {
        R2(insert_chars, y::insert_chars(in.view(), pos, in2.view()));
    }
    Res<std::string> insert_codepoint(Bytes s, ptrdiff_t pos, char32_t c)
    {
        R1(insert_codepoint, y::insert_codepoint(in.view(), pos, c));
    }
    Res<std::string> insert_codepoints(Bytes s, ptrdiff_t pos, Bytes s2)
    {
        R2(insert_codepoints, y::insert_codepoints(in.view(), pos, in2.view()));
    }
    Res<bool> is_valid_utf8(Bytes s) {R1(is_valid_utf8, y::is_valid_utf8(in.view()));}
    Res<std::string> join(const std::vector<std::string>& parts, std::optional<Bytes> delimiter,
                          bool as_views)
    {
        std::vector<std::string_view> views(parts.begin(), parts.end());
        auto run = [&](auto& c)
        {
            if (delimiter)
            {
                InB d(*delimiter);
                return y::join(c.begin(), c.end(), d.view());
            }
            return y::join(c.begin(), c.end());
        };
        return guard("join", [&]() {return as_views ? run(views) : run(parts);});
    }
    Res<std::string> replace(Bytes s, Bytes s2, Bytes s3, std::optional<ptrdiff_t> max)
    {
        R3(replace, max ? y::replace(in.view(), in2.view(), in3.view(), *max)
                        : y::replace(in.view(), in2.view(), in3.view()));
    }
    Res<std::string> replace_chars(Bytes s, ptrdiff_t start, ptrdiff_t end, Bytes s2)
    {
        R2(replace_chars, y::replace_chars(in.view(), start, end, in2.view()));
    }
    Res<std::string> replace_codepoints(Bytes s, ptrdiff_t start, ptrdiff_t end, Bytes s2)
    {
        R2(replace_codepoints, y::replace_codepoints(in.view(), start, end, in2.view()));
    }
    Res<std::string> replace_codepoint(Bytes s, char32_t from, char32_t to,
                                       std::optional<ptrdiff_t> max)
    {
        R1(replace_codepoint, max ? y::replace_codepoint(in.view(), from, to, *max)
                                  : y::replace_codepoint(in.view(), from, to));
    }
    Res<std::string> replace_invalid_utf8(Bytes s, std::optional<char32_t> c)
    {
        R1(replace_invalid_utf8, c ? y::replace_invalid_utf8(in.view(), *c)
                                   : y::replace_invalid_utf8(in.view()));
    }
    Res<std::string> replace_invalid_utf8_in_place(Bytes s, std::optional<char32_t> c)
    {
        std::string t(s);
        bool replaced = false;
        return kept(t, s, replaced, "replace_invalid_utf8", [&]()
        {
            auto& u = c ? y::replace_invalid_utf8(t, *c) : y::replace_invalid_utf8(t);
            replaced = true;
            if (&u != &t)
                fail("replace_invalid_utf8 returned another string");
            return t;
        });
    }
    Res<std::string> reverse(Bytes s) {R1(reverse, y::reverse(in.view()));}

#define PARAMS y::SplitParams{p.max, p.ignore_empty}
    Res<Views> split_chars(Bytes s, TextV s2, Params p)
    {
        RT(split, rel(in, p.defaults ? y::split(in.view(), in2.view())
                                     : y::split(in.view(), in2.view(), PARAMS), "split"));
    }
    Res<Views> split(Bytes s, Bytes s2, Params p)
    {
        R2(split, rel(in, p.defaults ? y::split(in.view(), in2.view())
                                     : y::split(in.view(), in2.view(), PARAMS), "split"));
    }
    Res<Views> split_lines(Bytes s, Params p)
    {
        R1(split_lines, rel(in, p.defaults ? y::split_lines(in.view())
                                           : y::split_lines(in.view(), PARAMS), "split_lines"));
    }
    namespace
    {
        auto wrap(const InB& in, const Finder& f)
        {
            return [&in, &f](std::string_view v)
            {
                in.rel(v, "the text given to the token finder");
                auto r = f(v);
                return y::Subrange(r.off, r.len);
            };
        }
    }
    Res<Views> split_where(Bytes s, const Finder& f, Params p)
    {
        R1(split_where, rel(in, p.defaults ? y::split_where(in.view(), wrap(in, f))
                                           : y::split_where(in.view(), wrap(in, f), PARAMS),
                            "split_where"));
    }
    Res<std::vector<Token>> tokens(Bytes s, const Finder& f)
    {
        InB in(s);
        return guard("TokenIterator", [&]()
        {
            std::vector<Token> r;
            y::TokenIterator it(in.view(), wrap(in, f));
            auto add = [&](bool more)
            {
                r.push_back({more, bool(it), in.rel(it.part(), "part"),
                             in.rel(it.token(), "token"),
                             in.rel(it.remainder(), "remainder")});
            };
            add(true);
            bool more = true;
            while (more)
            {
                more = it.next();
                add(more);
                if (r.size() > s.size() + 5)
                    fail("TokenIterator does not end");
            }
            // It stays at the end.
            more = it.next();
            add(more);
            in.unchanged("TokenIterator");
            return r;
        });
    }
    Res<View> trim(int which, Bytes s, std::optional<TextV> chars)
    {
        InB in(s);
        InT in2(chars.value_or(TextV()));
        return done("trim", guard("trim", [&]()
        {
            std::string_view v;
            if (which == 0)
                v = chars ? y::trim(in.view(), in2.view()) : y::trim(in.view());
            else if (which == 1)
                v = chars ? y::trim_start(in.view(), in2.view()) : y::trim_start(in.view());
            else
                v = chars ? y::trim_end(in.view(), in2.view()) : y::trim_end(in.view());
            return in.rel(v, "trim");
        }), in, in2);
    }
    Res<View> trim_where(int which, Bytes s, const Pred& p)
    {
        R1(trim_where, in.rel(which == 0 ? y::trim_where(in.view(), p)
                              : which == 1 ? y::trim_start_where(in.view(), p)
                                           : y::trim_end_where(in.view(), p), "trim_where"));
    }

    bool set_contains(const SetSpec& s, char32_t c) {return make(s).contains(c);}
    bool set_ci_contains(const SetSpec& s, char32_t c) {return make(s).case_insensitive_contains(c);}
    bool list_contains(TextV s, char32_t c) {InT in(s); return y::contains(in.view(), c);}
    bool list_ci_contains(TextV s, char32_t c) {InT in(s); return y::case_insensitive_contains(in.view(), c);}
    int32_t ci_compare(char32_t a, char32_t b, bool f)
    {
        return f ? y::CaseInsensitiveCompare()(a, b) : y::case_insensitive_compare(a, b);
    }
    bool ci_equal(char32_t a, char32_t b, bool f)
    {
        return f ? y::CaseInsensitiveEqual()(a, b) : y::case_insensitive_equal(a, b);
    }
    bool ci_less(char32_t a, char32_t b, bool f)
    {
        return f ? y::CaseInsensitiveLess()(a, b) : y::case_insensitive_less(a, b);
    }

    namespace ci
    {
        namespace z = y::case_insensitive;
        Res<int32_t> compare(Bytes s, Bytes s2) {R2(ci::compare, z::compare(in.view(), in2.view()));}
        Res<bool> equal(Bytes s, Bytes s2) {R2(ci::equal, z::equal(in.view(), in2.view()));}
        Res<bool> less(Bytes s, Bytes s2) {R2(ci::less, z::less(in.view(), in2.view()));}
        Res<bool> starts_with(Bytes s, Bytes s2) {R2(ci::starts_with, z::starts_with(in.view(), in2.view()));}
        Res<bool> ends_with(Bytes s, Bytes s2) {R2(ci::ends_with, z::ends_with(in.view(), in2.view()));}
        Res<Sub> find_first(Bytes s, Bytes s2, Off o)
        {
            R2(ci::find_first, in.rel(o ? z::find_first(in.view(), in2.view(), *o)
                                        : z::find_first(in.view(), in2.view()), "ci::find_first"));
        }
        Res<Sub> find_last(Bytes s, Bytes s2, Off o)
        {
            R2(ci::find_last, in.rel(o ? z::find_last(in.view(), in2.view(), *o)
                                       : z::find_last(in.view(), in2.view()), "ci::find_last"));
        }
        Res<Hit> find_first_of(Bytes s, TextV s2, Off o)
        {
            RT(ci::find_first_of, rel(in, o ? z::find_first_of(in.view(), in2.view(), *o)
                                            : z::find_first_of(in.view(), in2.view()), "ci::find_first_of"));
        }
        Res<Hit> find_last_of(Bytes s, TextV s2, Off o)
        {
            RT(ci::find_last_of, rel(in, o ? z::find_last_of(in.view(), in2.view(), *o)
                                           : z::find_last_of(in.view(), in2.view()), "ci::find_last_of"));
        }
        Res<Hit> find_first_of_set(Bytes s, const SetSpec& set, Off o)
        {
            auto cs = make(set);
            R1(ci::find_first_of, rel(in, o ? z::find_first_of(in.view(), cs, *o)
                                            : z::find_first_of(in.view(), cs), "ci::find_first_of"));
        }
        Res<Hit> find_last_of_set(Bytes s, const SetSpec& set, Off o)
        {
            auto cs = make(set);
            R1(ci::find_last_of, rel(in, o ? z::find_last_of(in.view(), cs, *o)
                                           : z::find_last_of(in.view(), cs), "ci::find_last_of"));
        }
        Res<std::string> replace(Bytes s, Bytes s2, Bytes s3, std::optional<ptrdiff_t> max)
        {
            R3(ci::replace, max ? z::replace(in.view(), in2.view(), in3.view(), *max)
                                : z::replace(in.view(), in2.view(), in3.view()));
        }
        Res<Views> split_chars(Bytes s, TextV s2, Params p)
        {
            RT(ci::split, rel(in, p.defaults ? z::split(in.view(), in2.view())
                                             : z::split(in.view(), in2.view(), PARAMS), "ci::split"));
        }
        Res<Views> split(Bytes s, Bytes s2, Params p)
        {
            R2(ci::split, rel(in, p.defaults ? z::split(in.view(), in2.view())
                                             : z::split(in.view(), in2.view(), PARAMS), "ci::split"));
        }
    }

    Res<Sub> find_first_escapable_char(Bytes s, Off o)
    {
        R1(find_first_escapable_char, in.rel(o ? y::find_first_escapable_char(in.view(), *o)
                                               : y::find_first_escapable_char(in.view()),
                                             "find_first_escapable_char"));
    }
    Res<bool> has_escapable_chars(Bytes s) {R1(has_escapable_chars, y::has_escapable_chars(in.view()));}
    Res<std::string> escape_json(Bytes s) {R1(escape_json, y::escape_json(in.view()));}
    Res<Sub> find_first_escaped_char(Bytes s, Off o)
    {
        R1(find_first_escaped_char, in.rel(o ? y::find_first_escaped_char(in.view(), *o)
                                             : y::find_first_escaped_char(in.view()),
                                           "find_first_escaped_char"));
    }
    Res<bool> has_escaped_chars(Bytes s) {R1(has_escaped_chars, y::has_escaped_chars(in.view()));}
    Res<std::string> unescape_buffer(Bytes s, size_t* result)
    {
        InB in(s);
        return guard("unescape", [&]()
        {
            auto n = y::unescape(in.data(), in.size());
            if (result)
                *result = n;
            if (n > in.size())
                fail("unescape returned more than the length of its buffer");
            return std::string(in.data(), n);
        });
    }
    Res<std::string> unescape(Bytes s)
    {
        return guard("unescape", [&]() {return y::unescape(std::string(s));});
    }
    Res<Step> unescape_next(Bytes s, bool want_flag)
    {
        return with_view("unescape_next", s, [&](auto& v)
        {
            Step r;
            if (want_flag)
            {
                // Both initial values, so that it must be set.
                auto v2 = v;
                bool f2 = true;
                r.flag = false;
                r.cp = y::unescape_next(v, &r.flag);
                (void)y::unescape_next(v2, &f2);
                if (f2 != r.flag)
                    fail("unescape_next does not set did_unescape");
            }
            else
                r.cp = y::unescape_next(v);
            return r;
        });
    }

    Res<size_t> walk(Walk kind, Bytes s, const Pred& p, Bytes needle, TextV list)
    {
        InB in(s);
        auto begin = (const char*)in.data(), end = begin + in.size();
        auto view = in.view();
        size_t n = 0;
        char32_t c;
        auto all_next = [&](auto f)
        {
            size_t k = 0, pos = 0;
            while (auto r = f(pos))
            {
                pos = r.end();
                ++k;
            }
            return k;
        };
        auto all_prev = [&](auto f)
        {
            size_t k = 0, pos = in.size();
            while (auto r = f(pos))
            {
                pos = r.start();
                ++k;
            }
            return k;
        };
        return done("walk", guard("walk", [&]() -> size_t
        {
            switch (kind)
            {
            case Walk::NEXT:
                for (auto it = begin; it != end && y::decode_next(it, end) != y::INVALID_CHAR;)
                    ++n;
                break;
            case Walk::PREV:
                for (auto it = end; it != begin && y::decode_prev(begin, it) != y::INVALID_CHAR;)
                    ++n;
                break;
            case Walk::SAFE_NEXT:
                for (auto it = begin; y::safe_decode_next(it, end, c);)
                    ++n;
                break;
            case Walk::SAFE_PREV:
                for (auto it = end; y::safe_decode_prev(begin, it, c);)
                    ++n;
                break;
            case Walk::SKIP_NEXT:
                for (auto it = begin; y::skip_next(it, end);)
                    ++n;
                break;
            case Walk::SKIP_PREV:
                for (auto it = end; y::skip_prev(begin, it);)
                    ++n;
                break;
            case Walk::POP:
                while (y::pop_utf8_codepoint(view))
                    ++n;
                break;
            case Walk::POP_LAST:
                while (y::pop_last_utf8_codepoint(view))
                    ++n;
                break;
            case Walk::REMOVE:
                while (y::remove_utf8_codepoint(view))
                    ++n;
                break;
            case Walk::REMOVE_LAST:
                while (y::remove_last_utf8_codepoint(view))
                    ++n;
                break;
            case Walk::NEXT_CHAR:
                n = all_next([&](size_t i) {return y::get_next_char_range(view, i);});
                break;
            case Walk::PREV_CHAR:
                n = all_prev([&](size_t i) {return y::get_prev_char_range(view, i);});
                break;
            case Walk::UNESCAPE_NEXT:
                while (y::unescape_next(view))
                    ++n;
                break;
            case Walk::FIND_NEXT: n = all_next([&](size_t i) {return y::find_first_where(view, p, i).first;}); break;
            case Walk::FIND_PREV: n = all_prev([&](size_t i) {return y::find_last_where(view, p, i).first;}); break;
            case Walk::SUB_NEXT: n = all_next([&](size_t i) {return y::find_first(view, needle, i);}); break;
            case Walk::SUB_PREV: n = all_prev([&](size_t i) {return y::find_last(view, needle, i);}); break;
            case Walk::LINE_NEXT: n = all_next([&](size_t i) {return y::find_first_newline(view, i);}); break;
            case Walk::LINE_PREV: n = all_prev([&](size_t i) {return y::find_last_newline(view, i);}); break;
            case Walk::OF_NEXT: n = all_next([&](size_t i) {return y::find_first_of(view, list, i).first;}); break;
            case Walk::OF_PREV: n = all_prev([&](size_t i) {return y::find_last_of(view, list, i).first;}); break;
            case Walk::CI_NEXT: n = all_next([&](size_t i) {return y::case_insensitive::find_first(view, needle, i);}); break;
            case Walk::CI_PREV: n = all_prev([&](size_t i) {return y::case_insensitive::find_last(view, needle, i);}); break;
            case Walk::CI_OF_NEXT: n = all_next([&](size_t i) {return y::case_insensitive::find_first_of(view, list, i).first;}); break;
            case Walk::CI_OF_PREV: n = all_prev([&](size_t i) {return y::case_insensitive::find_last_of(view, list, i).first;}); break;
            case Walk::ESCAPABLE: n = all_next([&](size_t i) {return y::find_first_escapable_char(view, i);}); break;
            case Walk::ESCAPED: n = all_next([&](size_t i) {return y::find_first_escaped_char(view, i);}); break;
            default:
                break;
            }
            return n;
        }), in);
    }
    Res<std::string> grow(char32_t c, size_t n)
    {
        return guard("append", [&]()
        {
            std::string s;
            for (size_t i = 0; i < n; ++i)
                y::append(s, c);
            return s;
        });
    }

    namespace
    {
        SubrangeFacts facts(const y::Subrange& a, const y::Subrange& b)
        {
            std::ostringstream o;
            o << a;
            if (!o)
                fail("printing a Subrange fails");
            if (bool(a) == !a)
                fail("Subrange: bool() is not the opposite of !");
            return {a.offset, a.length, a.start(), a.end(), bool(a), a == b, a != b, o.str()};
        }
    }
    SubrangeFacts subrange(int ctor, Sub a, Sub b)
    {
        auto r = ctor == 0 ? y::Subrange(a.off, a.len) : ctor == 1 ? y::Subrange(a.off) : y::Subrange();
        return facts(r, y::Subrange(b.off, b.len));
    }
    SubrangeFacts subrange_of(It kind, size_t n, size_t at, size_t first, size_t last)
    {
        auto make = [&](auto c)
        {
            auto i = [&](size_t k) {return std::next(c.begin(), ptrdiff_t(k));};
            y::Subrange r(i(at), i(first), i(last));
            return facts(r, r);
        };
        if (kind == It::LIST)
            return make(std::list<char>(n, 'x'));
        if (kind == It::U8)
            return make(std::vector<unsigned char>(n, 'x'));
        return make(std::string(n, 'x'));
    }
    std::string set_text(const SetSpec& s)
    {
        std::ostringstream o;
        o << make(s);
        return o.str();
    }

    const char* const BIG_NAMES[size_t(Big::N)] = {
        "is_valid_utf8", "count_chars", "count_codepoints", "contains", "ends_with", "starts_with", "find_first",
        "find_last", "find_first_newline", "find_last_newline", "find_first_of", "find_last_of", "find_first_of_set",
        "find_last_of_set", "find_first_where", "find_last_where", "get_char_pos", "get_char_range",
        "get_char_substring", "get_codepoint", "get_codepoint_pos", "get_codepoint_substring", "get_next_char_range",
        "get_prev_char_range", "split_chars", "split", "split_lines", "split_where", "trim", "trim_end", "trim_start",
        "trim_where", "ci::compare", "ci::ends_with", "ci::equal", "ci::find_first", "ci::find_first_of",
        "ci::find_last", "ci::find_last_of", "ci::less", "ci::split_chars", "ci::split", "ci::starts_with",
        "find_first_escapable_char", "has_escapable_chars", "find_first_escaped_char", "has_escaped_chars",
        "unescape_next", "safe_decode_next", "safe_decode_prev", "skip_next", "skip_prev", "TokenIterator",
        "pop and remove", "append", "insert_chars", "insert_codepoint", "replace", "replace_chars",
        "replace_codepoints", "replace_codepoint", "replace_invalid_utf8", "reverse", "ci::replace", "escape_json",
        "unescape", "to_lower", "to_title", "to_upper", "to_composed", "to_decomposed", "join", "to_utf32"};

    Res<BigResult> big(Big kind, const BigArgs& a)
    {
        return guard(BIG_NAMES[size_t(kind)], [&]()
        {
            namespace ci = y::case_insensitive;
            BigResult r;
            auto s = a.s;
            auto num = [&](uint64_t v) {r.numbers.push_back(v);};
            auto sub = [&](y::Subrange v) {num(v.offset); num(v.length);};
            auto hit = [&](const std::pair<y::Subrange, char32_t>& h) {sub(h.first); num(h.second);};
            auto view = [&](std::string_view v)
            {
                num(v.empty() ? 0 : uint64_t(v.data() - s.data()));
                num(v.size());
            };
            auto views = [&](const std::vector<std::string_view>& v)
            {
                num(v.size());
                uint64_t total = 0;
                for (auto& e : v)
                    total += e.size();
                num(total);
                for (size_t i = 0; i < 3 && i < v.size(); ++i)
                {
                    view(v[i]);
                    view(v[v.size() - 1 - i]);
                }
            };
            auto text = [&](std::string v) {r.text = std::move(v); r.has_text = true;};
            auto pred = [&](char32_t c) {return a.list.find(c) != Text::npos;};
            y::CodepointSet set;
            set.add_codepoints(a.list);
            auto begin = s.data(), end = begin + s.size();
            y::SplitParams params{size_t(a.max), bool(a.index & 1)};
            uint64_t n = 0, sum = 0;
            char32_t c;
            switch (kind)
            {
            case Big::VALID: num(y::is_valid_utf8(s)); break;
            case Big::COUNT_CHARS: num(y::count_chars(s)); break;
            case Big::COUNT_CODEPOINTS: num(y::count_codepoints(s)); break;
            case Big::CONTAINS: num(y::contains(s, a.c1)); break;
            case Big::ENDS_WITH: num(y::ends_with(s, a.other)); num(y::ends_with(s, s)); break;
            case Big::STARTS_WITH: num(y::starts_with(s, a.other)); num(y::starts_with(s, s)); break;
            case Big::FIND_FIRST: sub(y::find_first(s, a.needle, a.offset)); break;
            case Big::FIND_LAST: sub(y::find_last(s, a.needle, a.offset)); break;
            case Big::FIRST_NEWLINE: sub(y::find_first_newline(s, a.offset)); break;
            case Big::LAST_NEWLINE: sub(y::find_last_newline(s, a.offset)); break;
            case Big::FIRST_OF: hit(y::find_first_of(s, std::u32string_view(a.list), a.offset)); break;
            case Big::LAST_OF: hit(y::find_last_of(s, std::u32string_view(a.list), a.offset)); break;
            case Big::FIRST_OF_SET: hit(y::find_first_of(s, set, a.offset)); break;
            case Big::LAST_OF_SET: hit(y::find_last_of(s, set, a.offset)); break;
            case Big::FIRST_WHERE: hit(y::find_first_where(s, pred, a.offset)); break;
            case Big::LAST_WHERE: hit(y::find_last_where(s, pred, a.offset)); break;
            case Big::CHAR_POS: num(y::get_char_pos(s, a.index)); break;
            case Big::CHAR_RANGE: sub(y::get_char_range(s, a.index)); break;
            case Big::CHAR_SUBSTRING: view(y::get_char_substring(s, a.index, a.index2)); break;
            case Big::CODEPOINT: hit(y::get_codepoint(s, a.index)); break;
            case Big::CODEPOINT_POS: num(y::get_codepoint_pos(s, a.index)); break;
            case Big::CODEPOINT_SUBSTRING: view(y::get_codepoint_substring(s, a.index, a.index2)); break;
            case Big::NEXT_CHAR: sub(y::get_next_char_range(s, a.offset)); break;
            case Big::PREV_CHAR: sub(y::get_prev_char_range(s, a.offset)); break;
            case Big::SPLIT_CHARS: views(y::split(s, std::u32string_view(a.list), params)); break;
            case Big::SPLIT: views(y::split(s, a.needle, params)); break;
            case Big::SPLIT_LINES: views(y::split_lines(s, params)); break;
            case Big::SPLIT_WHERE:
                views(y::split_where(s, [&](auto v) {return y::find_first(v, a.needle);}, params));
                break;
            case Big::TRIM: view(y::trim(s, a.list)); break;
            case Big::TRIM_END: view(y::trim_end(s, a.list)); break;
            case Big::TRIM_START: view(y::trim_start(s, a.list)); break;
            case Big::TRIM_WHERE: view(y::trim_where(s, pred)); break;
            case Big::CI_COMPARE:
            {
                auto v = ci::compare(s, a.other);
                num(uint64_t(1 + (v > 0) - (v < 0)));
                break;
            }
            case Big::CI_ENDS_WITH: num(ci::ends_with(s, a.other)); break;
            case Big::CI_EQUAL: num(ci::equal(s, a.other)); break;
            case Big::CI_FIND_FIRST: sub(ci::find_first(s, a.needle, a.offset)); break;
            case Big::CI_FIRST_OF: hit(ci::find_first_of(s, std::u32string_view(a.list), a.offset)); break;
            case Big::CI_FIND_LAST: sub(ci::find_last(s, a.needle, a.offset)); break;
            case Big::CI_LAST_OF: hit(ci::find_last_of(s, std::u32string_view(a.list), a.offset)); break;
            case Big::CI_LESS: num(ci::less(s, a.other)); break;
            case Big::CI_SPLIT_CHARS: views(ci::split(s, std::u32string_view(a.list), params)); break;
            case Big::CI_SPLIT: views(ci::split(s, a.needle, params)); break;
            case Big::CI_STARTS_WITH: num(ci::starts_with(s, a.other)); break;
            case Big::ESCAPABLE: sub(y::find_first_escapable_char(s, a.offset)); break;
            case Big::HAS_ESCAPABLE: num(y::has_escapable_chars(s)); break;
            case Big::ESCAPED: sub(y::find_first_escaped_char(s, a.offset)); break;
            case Big::HAS_ESCAPED: num(y::has_escaped_chars(s)); break;
            case Big::UNESCAPE_NEXT:
                for (auto v = s; n < 3; ++n)
                {
                    num(y::unescape_next(v).value_or(0x7FFFFFFF));
                    num(v.size());
                }
                break;
            case Big::DECODE:
                for (auto it = begin; y::safe_decode_next(it, end, c); ++n)
                    sum += c;
                num(n);
                num(sum);
                break;
            case Big::DECODE_BACK:
                for (auto it = end; y::safe_decode_prev(begin, it, c); ++n)
                    sum += c;
                num(n);
                num(sum);
                break;
            case Big::SKIP:
                for (auto it = begin; y::skip_next(it, end); ++n)
                    sum ^= uint64_t(end - it) == a.offset;
                num(n);
                num(sum);
                break;
            case Big::SKIP_BACK:
                for (auto it = end; y::skip_prev(begin, it); ++n)
                    sum ^= uint64_t(it - begin) == a.offset;
                num(n);
                num(sum);
                break;
            case Big::TOKENS:
            {
                y::TokenIterator it(s, [&](auto v) {return y::find_first(v, a.needle);});
                while (it.next())
                {
                    ++n;
                    sum += it.part().size() + 3 * it.token().size();
                    if (n < 4)
                        num(it.remainder().size());
                }
                num(n);
                num(sum);
                break;
            }
            case Big::POP_REMOVE:
            {
                auto v = s;
                num(y::pop_utf8_codepoint(v).value_or(0x7FFFFFFF));
                num(v.size());
                num(y::pop_last_utf8_codepoint(v).value_or(0x7FFFFFFF));
                num(v.size());
                num(y::remove_utf8_codepoint(v));
                num(v.size());
                num(y::remove_last_utf8_codepoint(v));
                num(v.size());
                break;
            }
            case Big::APPEND: text(y::append(s, a.c1)); break;
            case Big::INSERT_CHARS: text(y::insert_chars(s, a.index, a.to)); break;
            case Big::INSERT_CODEPOINT: text(y::insert_codepoint(s, a.index, a.c1)); break;
            case Big::REPLACE: text(y::replace(s, a.needle, a.to, a.max)); break;
            case Big::REPLACE_CHARS: text(y::replace_chars(s, a.index, a.index2, a.to)); break;
            case Big::REPLACE_CODEPOINTS: text(y::replace_codepoints(s, a.index, a.index2, a.to)); break;
            case Big::REPLACE_CODEPOINT: text(y::replace_codepoint(s, a.c1, a.c2, a.max)); break;
            case Big::REPLACE_INVALID: text(y::replace_invalid_utf8(s, a.c2)); break;
            case Big::REVERSE: text(y::reverse(s)); break;
            case Big::CI_REPLACE: text(ci::replace(s, a.needle, a.to, a.max)); break;
            case Big::ESCAPE: text(y::escape_json(s)); break;
            case Big::UNESCAPE: text(y::unescape(std::string(s))); break;
            case Big::TO_LOWER: text(y::to_lower(s)); break;
            case Big::TO_TITLE: text(y::to_title(s)); break;
            case Big::TO_UPPER: text(y::to_upper(s)); break;
            case Big::TO_COMPOSED: text(y::to_composed(s)); break;
            case Big::TO_DECOMPOSED: text(y::to_decomposed(s)); break;
            case Big::JOIN:
            {
                std::vector<std::string_view> v{a.needle, s, a.to};
                text(y::join(v.begin(), v.end(), a.to));
                break;
            }
            case Big::TO_UTF32:
            {
                auto t = y::to_utf32(s);
                text(std::string((const char*)t.data(), t.size() * sizeof(char32_t)));
                break;
            }
            case Big::N: break;
            }
            return r;
        });
    }
}
