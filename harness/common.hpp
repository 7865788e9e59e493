// Helpers shared by the property files.
#pragma once
#include <algorithm>
#include <cstdlib>
#include <string>
#include "api.hpp"
#include "engine.hpp"
#include "gen.hpp"
#include "model.hpp"

using api::Res;
using api::Sub;
using api::View;
using api::Hit;
using model::Text;
using pbt::Ctx;
using pbt::expect;
using pbt::fail;
using pbt::Property;
using pbt::Src;
using std::string;
using std::string_view;

inline string show(const string& s) {return pbt::quote(s);}
inline string show(const Text& s) {return pbt::quote(s);}
inline string show(bool b) {return b ? "true" : "false";}
inline string show(char32_t c) {return "U+" + pbt::hex(c);}
inline string show(size_t n) {return n == SIZE_MAX ? "npos" : std::to_string(n);}
inline string show(int n) {return std::to_string(n);}
inline string show(unsigned n) {return std::to_string(n);}
inline string show(const Sub& s) {return "{offset " + show(s.off) + ", length " + show(s.len) + "}";}
inline string show(const View& s) {return s.len == 0 ? string("view{empty}") : "view{" + show(s.off) + ", length " + show(s.len) + "}";}
inline string show(const Hit& h) {return show(h.sub) + " " + show(h.cp);}
template <typename T>
string show(const std::vector<T>& v)
{
    string r = "[";
    for (auto& e : v)
        r += (r.size() > 1 ? ", " : "") + show(e);
    return r + "]";
}
template <typename T>
string show(const std::optional<T>& v)
{
    return v ? show(*v) : "nothing";
}
template <typename T>
string show(const Res<T>& r)
{
    return r.threw ? "YstringException" : show(r.v);
}

template <typename T>
void eq(const char* what, const T& actual, const T& expected)
{
    if (!(actual == expected))
        fail(string(what) + ": got " + show(actual) + ", expected " + show(expected));
}

// The call succeeds and gives the value.
template <typename T>
void gives(const char* what, const Res<T>& r, const T& expected)
{
    if (r.threw || !(r.v == expected))
        fail(string(what) + ": got " + show(r) + ", expected " + show(expected));
}

template <typename T>
void throws(const char* what, const Res<T>& r)
{
    if (!r.threw)
        fail(string(what) + ": got " + show(r) + ", expected YstringException");
}

// The view equals [off, off + len); where an empty one lies doesn't matter.
inline void gives_view(const char* what, const Res<View>& r, size_t off, size_t len)
{
    if (r.threw || r.v.len != len || (len && r.v.off != off))
        fail(string(what) + ": got " + show(r) + ", expected " + show(View{off, len}));
}

inline void gives_sub(const char* what, const Res<Sub>& r, const std::optional<Sub>& expected)
{
    // Without a hit only the truth value matters.
    if (r.threw || (expected ? !(r.v == *expected) : r.v.len != 0))
        fail(string(what) + ": got " + show(r) + ", expected " + show(expected));
}

inline bool same_views(const api::Views& a, const api::Views& e)
{
    if (a.size() != e.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i].len != e[i].len || (e[i].len && a[i].off != e[i].off))
            return false;
    return true;
}

inline void gives_views(const char* what, const Res<api::Views>& r, const api::Views& e)
{
    if (r.threw || !same_views(r.v, e))
        fail(string(what) + ": got " + show(r) + ", expected " + show(e));
}

// Searches for a code point satisfying pred from a byte offset, on any bytes.
struct Search
{
    bool threw = false;
    bool found = false;
    Hit hit;
};

template <typename P>
Search search_forward(string_view s, size_t off, P pred)
{
    while (off < s.size())
    {
        auto u = model::at(s, off);
        if (!u.ok)
            return {true, false, {}};
        if (pred(u.cp))
            return {false, true, {{off, u.len}, u.cp}};
        off += u.len;
    }
    return {};
}

template <typename P>
Search search_backward(string_view s, size_t off, P pred)
{
    off = std::min(off, s.size());
    while (off > 0)
    {
        auto u = model::before(s, off);
        if (!u.ok)
            return {true, false, {}};
        if (pred(u.cp))
            return {false, true, {{off - u.len, u.len}, u.cp}};
        off -= u.len;
    }
    return {};
}

inline void gives_search(const char* what, const Res<Hit>& r, const Search& e)
{
    bool ok = e.threw ? r.threw
              : e.found ? !r.threw && r.v == e.hit
                        : !r.threw && r.v.sub.len == 0 && r.v.cp == model::INVALID;
    if (!ok)
        fail(string(what) + ": got " + show(r) + ", expected "
             + (e.threw ? "YstringException" : e.found ? show(e.hit) : "no hit"));
}

// Splits [0, n) at the separators, which are in order and do not overlap.
struct Piece
{
    size_t begin, end;
};

inline std::vector<Piece> split_pieces(const std::vector<Piece>& seps, size_t n,
                                       uint64_t max, bool ignore_empty)
{
    std::vector<Piece> r;
    size_t start = 0;
    for (auto& p : seps)
    {
        if (r.size() >= max)
            break;
        if (!ignore_empty || p.begin > start)
            r.push_back({start, p.begin});
        start = p.end;
    }
    if (!ignore_empty || n > start)
        r.push_back({start, n});
    return r;
}

inline api::Views to_views(const std::vector<Piece>& pieces)
{
    api::Views r;
    for (auto& p : pieces)
        r.push_back({p.begin, p.end - p.begin});
    return r;
}

inline api::Params gen_params(Src& src, Ctx& ctx, size_t n)
{
    api::Params p;
    p.defaults = src.flag(1, 8);
    if (!p.defaults)
    {
        p.max = src.flag(1, 2) ? gen::limit(src, n) : SIZE_MAX;
        p.ignore_empty = src.flag(1, 3);
    }
    ctx.note_n("max", int64_t(p.max));
    ctx.note_n("ignore_empty", p.ignore_empty);
    return p;
}

// Bytes which are the encoded text of some kind or (seldom) arbitrary.
inline string text_or_bytes(Src& src, unsigned focus, unsigned bytes_num, unsigned bytes_den)
{
    if (src.flag(bytes_num, bytes_den))
        return gen::bytes(src, focus);
    return model::enc(gen::text(src, focus));
}

inline size_t boundary(Src& src, const std::vector<size_t>& offsets)
{
    return offsets[src.choose(0, offsets.size() - 1)];
}

inline void load_model()
{
    auto p = getenv("VERIF_UNICODE");
    model::load(p ? p : "/verif/data/unicode16.txt");
}

// Adds to what is enumerated: every code point, in texts where it is alone,
// first, last and in the middle.
inline void sweep_code_points(Property& p, const string& what, std::function<void(char32_t, const Text&)> one)
{
    auto n = p.sweep_size;
    p.sweep_one = [n, one = std::move(one), rest = p.sweep_one](uint64_t i, Ctx& ctx)
    {
        if (i < n)
            return rest(i, ctx);
        auto c = char32_t(i - n);
        ctx.nontrivial = c >= 0x80;
        for (auto& t : {Text{c}, Text{c, 'b'}, Text{'a', c}, Text{'a', c, 'b'}, Text{c, c}})
            one(c, t);
    };
    p.sweep_size = n + 0x110000;
    p.sweep_text += (n ? "; " : "") + string("every code point alone, first, last, between two others and doubled: ") + what;
}

// The property with the arguments in one case in four placed otherwise in
// memory: one within another where it's a part of it, or among other bytes.
inline Property placed(Property p)
{
    p.run = [run = std::move(p.run)](Src& src, Ctx& ctx)
    {
        struct Restore
        {
            ~Restore() {api::placement = {};}
        } restore;
        api::placement = {};
        if (src.flag(1, 4))
        {
            static const char* const around[] = {"", "\x80\x80\x80", "\xF0\x9F\x98", "\xCC\x81", "a", "\r", "\n", "\\"};
            api::placement.overlap = !src.flag(1, 3);
            api::placement.embed = src.flag(1, 2);
            if (api::placement.embed)
            {
                api::placement.before = around[src.choose(0, std::size(around) - 1)];
                api::placement.after = around[src.choose(0, std::size(around) - 1)];
                api::placement.shift = unsigned(src.choose(0, 9));
            }
            ctx.cls(api::placement.overlap ? "arguments may share memory" : "arguments among other bytes");
            ctx.note_n("overlap", api::placement.overlap);
        }
        run(src, ctx);
    };
    p.rule += " In one case in four arguments found in one another share memory, or lie among other bytes.";
    return p;
}
