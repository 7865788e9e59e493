// C28: work and stack in proportion to the text. Work is counted, not timed:
// basic blocks executed in the library, bytes moved by the C library's memory
// functions and bytes allocated.
#include "common.hpp"
#include <new>
#include <unistd.h>

static uint64_t g_bytes;

// These take the place of the C library's, also for libstdc++.
extern "C"
{
    void* memcpy(void* d, const void* s, size_t n)
    {
        g_bytes += n;
        auto r = d;
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
        return r;
    }
    void* memmove(void* d, const void* s, size_t n)
    {
        g_bytes += n;
        auto r = d;
        if (uintptr_t(d) - uintptr_t(s) >= n)
            asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
        else
        {
            auto d1 = (char*)d + n - 1;
            auto s1 = (const char*)s + n - 1;
            asm volatile("std\n\trep movsb\n\tcld" : "+D"(d1), "+S"(s1), "+c"(n) : : "memory");
        }
        return r;
    }
    void* memset(void* d, int c, size_t n)
    {
        g_bytes += n;
        auto r = d;
        asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
        return r;
    }
    void* memchr(const void* s, int c, size_t n)
    {
        auto p = (const unsigned char*)s;
        size_t i = 0;
        while (i < n && p[i] != (unsigned char)c)
            ++i;
        g_bytes += i + 1;
        return i < n ? (void*)(p + i) : nullptr;
    }
    int memcmp(const void* a, const void* b, size_t n)
    {
        auto p = (const unsigned char*)a, q = (const unsigned char*)b;
        size_t i = 0;
        while (i < n && p[i] == q[i])
            ++i;
        g_bytes += i + 1;
        return i < n ? p[i] - q[i] : 0;
    }
}

void* operator new(size_t n)
{
    g_bytes += n;
    if (auto p = malloc(n))
        return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept {free(p);}
void operator delete(void* p, size_t) noexcept {free(p);}

struct Work
{
    uint64_t work;
    size_t depth;
};

template <typename F>
static Work measure(F f)
{
    auto b = pbt::meter.blocks, m = g_bytes;
    pbt::meter.stack = UINTPTR_MAX;
    f();
    auto here = uintptr_t(__builtin_frame_address(0));
    return {pbt::meter.blocks - b + g_bytes - m, here > pbt::meter.stack ? here - pbt::meter.stack : 0};
}

// What one call needs besides the text.
struct Args
{
    string unit, head, tail, needle, to;
    Text list;
    api::SetSpec set;
    api::Params params;
    std::optional<ptrdiff_t> max;
    char32_t c1, c2;
    uint32_t mod;
    unsigned num = 0;               // positions as parts of the whole, 0-4
    bool from_end = false;
    int which = 0;
    api::Walk walk = api::Walk::NEXT;
};

struct Input
{
    string s;
    size_t reps;
};

using Job = void (*)(const Input&, const Args&);

static ptrdiff_t pos(const Input& in, const Args& a, unsigned num)
{
    // Proportional to the text (not necessarily inside it).
    auto i = ptrdiff_t(in.reps) * num / 4;
    return a.from_end ? -i - 1 : i;
}
static size_t off(const Input& in, const Args& a)
{
    return a.head.size() + in.reps * a.num / 4 * a.unit.size();
}
static api::Pred pred(const Args& a)
{
    return [&a](char32_t c) {return c % a.mod == 0;};
}

struct NamedJob
{
    const char* name;
    Job run;
};

#define J(NAME, CALL) {NAME, [](const Input& in, const Args& a) {(void)a; (void)api::CALL;}}
static const NamedJob JOBS[] = {
    J("walk", walk(a.walk, in.s, pred(a), a.needle, a.list)),
    J("walk", walk(a.walk, in.s, pred(a), a.needle, a.list)),
    J("walk", walk(a.walk, in.s, pred(a), a.needle, a.list)),
    J("walk", walk(a.walk, in.s, pred(a), a.needle, a.list)),
    J("walk", walk(a.walk, in.s, pred(a), a.needle, a.list)),
    J("walk", walk(a.walk, in.s, pred(a), a.needle, a.list)),
    J("append in place", grow(a.c1, in.reps)),
    J("append", append(in.s, a.c1)),
    J("to_utf32", to_utf32(in.s)),
    {"from_utf32", [](const Input& in, const Args& a)
    {
        Text t;
        while (t.size() < in.reps * 4)
            t += a.list.empty() ? U"x" : a.list;
        (void)api::from_utf32(api::TextV(t));
    }},
    J("to_lower", to_lower(in.s)),
    J("to_title", to_title(in.s)),
    J("to_upper", to_upper(in.s)),
    J("to_composed", to_composed(in.s)),
    J("to_decomposed", to_decomposed(in.s)),
    J("contains", contains(in.s, a.c1)),
    J("count_chars", count_chars(in.s)),
    J("count_codepoints", count_codepoints(in.s)),
    J("ends_with", ends_with(in.s, a.needle)),
    J("starts_with", starts_with(in.s, a.needle)),
    J("find_first", find_first(in.s, a.needle, off(in, a))),
    J("find_last", find_last(in.s, a.needle, off(in, a))),
    J("find_first_newline", find_first_newline(in.s, off(in, a))),
    J("find_last_newline", find_last_newline(in.s, off(in, a))),
    J("find_first_of", find_first_of(in.s, a.list, off(in, a))),
    J("find_last_of", find_last_of(in.s, a.list, off(in, a))),
    J("find_first_of set", find_first_of_set(in.s, a.set, off(in, a))),
    J("find_last_of set", find_last_of_set(in.s, a.set, off(in, a))),
    J("find_first_where", find_first_where(in.s, pred(a), off(in, a))),
    J("find_last_where", find_last_where(in.s, pred(a), off(in, a))),
    J("get_char_pos", get_char_pos(in.s, pos(in, a, a.num))),
    J("get_char_range", get_char_range(in.s, pos(in, a, a.num))),
    J("get_char_substring", get_char_substring(in.s, pos(in, a, a.num), pos(in, a, a.from_end ? a.which : 4 - a.which))),
    J("get_codepoint", get_codepoint(in.s, pos(in, a, a.num))),
    J("get_codepoint_pos", get_codepoint_pos(in.s, pos(in, a, a.num))),
    J("get_codepoint_substring", get_codepoint_substring(in.s, pos(in, a, a.num),
                                                         pos(in, a, a.from_end ? a.which : 4 - a.which))),
    J("insert_char", insert_char(in.s, pos(in, a, a.num), a.c1)),
    J("insert_chars", insert_chars(in.s, pos(in, a, a.num), a.to)),
    J("insert_codepoint", insert_codepoint(in.s, pos(in, a, a.num), a.c1)),
    J("insert_codepoints", insert_codepoints(in.s, pos(in, a, a.num), a.to)),
    J("is_valid_utf8", is_valid_utf8(in.s)),
    {"join", [](const Input& in, const Args& a)
    {
        std::vector<string> parts(in.reps, a.unit);
        (void)api::join(parts, a.to, a.which == 1);
    }},
    J("replace", replace(in.s, a.needle, a.to, a.max)),
    J("replace_chars", replace_chars(in.s, pos(in, a, a.num), pos(in, a, a.from_end ? a.which : 4 - a.which), a.to)),
    J("replace_codepoints", replace_codepoints(in.s, pos(in, a, a.num), pos(in, a, a.from_end ? a.which : 4 - a.which),
                                               a.to)),
    J("replace_codepoint", replace_codepoint(in.s, a.c1, a.c2, a.max)),
    J("replace_invalid_utf8", replace_invalid_utf8(in.s, std::nullopt)),
    J("replace_invalid_utf8 in place", replace_invalid_utf8_in_place(in.s, a.c1)),
    J("reverse", reverse(in.s)),
    J("split", split(in.s, a.needle, a.params)),
    J("split list", split_chars(in.s, a.list, a.params)),
    J("split_lines", split_lines(in.s, a.params)),
    J("trim", trim(a.which, in.s, a.list)),
    J("trim_where", trim_where(a.which, in.s, pred(a))),
    {"ci::compare", [](const Input& in, const Args& a)
    {
        auto t = in.s;
        if (a.which)
            t += a.to;
        (void)api::ci::compare(in.s, t);
        (void)api::ci::equal(in.s, t);
        (void)api::ci::less(in.s, t);
    }},
    J("ci::starts_with", ci::starts_with(in.s, a.needle)),
    J("ci::ends_with", ci::ends_with(in.s, a.needle)),
    J("ci::find_first", ci::find_first(in.s, a.needle, off(in, a))),
    J("ci::find_last", ci::find_last(in.s, a.needle, off(in, a))),
    J("ci::find_first_of", ci::find_first_of(in.s, a.list, off(in, a))),
    J("ci::find_last_of", ci::find_last_of(in.s, a.list, off(in, a))),
    J("ci::find_first_of set", ci::find_first_of_set(in.s, a.set, off(in, a))),
    J("ci::find_last_of set", ci::find_last_of_set(in.s, a.set, off(in, a))),
    J("ci::replace", ci::replace(in.s, a.needle, a.to, a.max)),
    J("ci::split", ci::split(in.s, a.needle, a.params)),
    J("ci::split list", ci::split_chars(in.s, a.list, a.params)),
    J("find_first_escapable_char", find_first_escapable_char(in.s, off(in, a))),
    J("escape_json", escape_json(in.s)),
    J("find_first_escaped_char", find_first_escaped_char(in.s, off(in, a))),
    J("unescape", unescape(in.s)),
    J("unescape buffer", unescape_buffer(in.s)),
};
#undef J

static string piece(Src& src, const std::vector<char32_t>& alphabet, unsigned focus, size_t max)
{
    auto s = model::enc(gen::text(src, alphabet, focus, 5));
    if (s.size() <= max)
        return s;
    s.resize(max);
    while (!s.empty() && !model::valid(s))
        s.pop_back();
    return s;
}

static Property c28()
{
    Property p;
    p.id = "C28";
    p.rule = "A case is one function (or loop: reading, popping, appending, stepping through a whole text) and three texts: "
             "a generated unit (text, escapes, or malformed bytes) repeated n, 8n and 64n times between a fixed head and "
             "tail; other strings are short and the same, positions and limits in proportion. The work (basic blocks of "
             "the library executed, bytes moved, compared and allocated) may grow at most 16-fold from each text to the "
             "next, and the stack depth not at all (16 KB margin). Non-trivial: the work does grow, at least 4-fold.";
    p.run = [](Src& src, Ctx& ctx)
    {
        static const unsigned focus[] = {gen::ANY, gen::ESCAPES, gen::MARKS | gen::LETTERS, gen::NORM | gen::MARKS,
                                         gen::NEWLINES | gen::SPACES, gen::CASE, gen::ASCII | gen::ESCAPES, gen::EDGES};
        Args a;
        auto f = focus[src.choose(0, 7)];
        auto alphabet = gen::alphabet(src, f, 4);
        auto& job = JOBS[src.choose(0, std::size(JOBS) - 1)];
        bool bad = src.flag(1, 8);
        a.unit = piece(src, alphabet, f, 24);
        if (bad)
            a.unit += gen::broken(src);
        if (src.flag(1, 8))
            a.unit = src.flag(1, 2) ? "\\u00e5" : "\\\n";
        if (a.unit.empty())
            a.unit = model::enc(alphabet[0]);
        if (src.flag(1, 4))
            a.head = piece(src, alphabet, f, 12);
        if (src.flag(1, 4))
            a.tail = src.flag(1, 4) ? gen::broken(src) : piece(src, alphabet, f, 12);
        switch (src.choose(0, 3))
        {
        case 0:
            a.needle = a.unit + a.unit;
            a.needle = a.needle.substr(src.choose(0, a.needle.size() - 1));
            a.needle.resize(src.choose(1, a.needle.size()));
            break;
        case 1: a.needle = model::enc(alphabet[0]); break;
        case 2: a.needle = a.unit + model::enc(src.pick(alphabet)); break;
        default: a.needle = piece(src, alphabet, f, 12);
        }
        a.to = piece(src, alphabet, f, 12);
        while (a.list.size() < 6 && src.flag(2, 3))
            a.list += src.flag(1, 2) ? src.pick(alphabet) : gen::cp(src, f);
        for (auto n = src.choose(0, 2); n; --n)
        {
            auto c = src.flag(1, 2) ? src.pick(alphabet) : gen::cp(src, f);
            a.set.ops.push_back({c, std::min<char32_t>(c + char32_t(src.choose(0, 300)), model::MAX), int(src.choose(0, 1))});
        }
        a.set.negated = src.flag(1, 4);
        a.c1 = src.pick(alphabet);
        a.c2 = src.pick(alphabet);
        a.mod = uint32_t(src.choose(1, 5));
        a.num = unsigned(src.choose(0, 4));
        a.from_end = src.flag(1, 2);
        a.which = int(src.choose(0, 2));
        a.walk = api::Walk(src.choose(0, uint64_t(api::Walk::N) - 1));
        a.params.ignore_empty = src.flag(1, 2);
        // Limits: none, fixed, or in proportion to the text.
        auto limit = src.choose(0, 3);
        bool last = src.flag(1, 2);
        size_t reps = src.choose(300, 800) / a.unit.size() + 1;
        ctx.note("unit", a.unit);
        ctx.note("head", a.head);
        ctx.note("tail", a.tail);
        ctx.note("needle", a.needle);
        ctx.note("to", a.to);
        ctx.note("list", a.list);
        if (ctx.describe)
            ctx.text += string(" ") + job.name + (job.name == string("walk") ? " " + std::to_string(int(a.walk)) : "");
        ctx.cls(job.name);

        auto run = [&](size_t k)
        {
            Input in;
            in.reps = k;
            in.s.reserve(a.head.size() + a.tail.size() + a.unit.size() * k);
            in.s = a.head;
            while (k--)
                in.s += a.unit;
            in.s += a.tail;
            if (limit)
            {
                a.params.max = limit == 1 ? 2 : in.reps / 2;
                a.max = ptrdiff_t(a.params.max) * (last ? -1 : 1);
            }
            else
                a.max = last ? ptrdiff_t(-1000000) : ptrdiff_t(1000000);
            // Once before, for what is only done at first.
            job.run({a.head + a.unit, 1}, a);
            auto w = measure([&]() {job.run(in, a);});
            return std::pair(w, in.s.size());
        };
        auto [w, n] = run(reps);
        auto w1 = w, w0 = w;
        for (int i = 0; i < 2; ++i)
        {
            reps *= 8;
            auto [v, m] = run(reps);
            if (v.work > 16 * w.work + 4000)
                fail(string(job.name) + ": the work grows from " + std::to_string(w.work) + " to " + std::to_string(v.work)
                     + " when the text grows from " + std::to_string(n) + " to " + std::to_string(m) + " bytes");
            if (v.depth > w.depth + 16384)
                fail(string(job.name) + ": the stack used grows from " + std::to_string(w.depth) + " to "
                     + std::to_string(v.depth) + " bytes when the text grows from " + std::to_string(n) + " to "
                     + std::to_string(m) + " bytes");
            w1 = w = v;
            n = m;
            if (v.work > 3000000)
                break;
        }
        ctx.nontrivial = w1.work >= 4 * w0.work;
        ctx.mix(a.unit.data(), a.unit.size());
        ctx.mix(job.name, string(job.name).size());
        ctx.mix(a.needle.data(), a.needle.size());
        ctx.mix_u64(uint64_t(a.walk) * 1000 + a.num * 10 + uint64_t(a.which));
    };
    p.quick_cases = 50000;
    p.thorough_cases = 4000000;
    return p;
}

Property pbt::make_property()
{
    load_model();
    return c28();
}
