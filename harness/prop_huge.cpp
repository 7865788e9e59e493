// C31: texts of more than 2^31 and 2^32 bytes.
#include "common.hpp"
#include <atomic>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

using api::Big;
using namespace std::literals;

// A long text which takes little memory: a head, many times the same pages,
// and a tail, mapped one after the other.
class Tiled
{
public:
    Tiled(const string& head, const string& unit, uint64_t reps, const string& tail)
    {
        const size_t page = 4096;
        // Whole pages of whole units.
        uint64_t per = page;
        while (per * unit.size() < (1u << 20))
            per *= 2;
        auto block = per * unit.size();
        auto blocks = reps / per;
        auto end = string();
        for (auto i = blocks * per; i < reps; ++i)
            end += unit;
        end += tail;
        auto round = [&](size_t n) {return (n + page - 1) / page * page;};
        m_size = round(head.size()) + blocks * block + round(end.size() + 1);
        m_base = (char*)mmap(nullptr, m_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        auto fd = memfd_create("tile", MFD_CLOEXEC);
        if (m_base == MAP_FAILED || fd < 0 || ftruncate(fd, off_t(block)) != 0)
            exit(3);
        auto p = (char*)mmap(nullptr, block, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        for (uint64_t i = 0; i < per; ++i)
            memcpy(p + i * unit.size(), unit.data(), unit.size());
        munmap(p, block);
        auto at = m_base + round(head.size());
        memcpy(at - head.size(), head.data(), head.size());
        for (uint64_t i = 0; i < blocks; ++i)
            if (mmap(at + i * block, block, PROT_READ, MAP_SHARED | MAP_FIXED | MAP_POPULATE, fd, 0) == MAP_FAILED)
                exit(3);
        close(fd);
        memcpy(at + blocks * block, end.data(), end.size());
        text = {at - head.size(), head.size() + blocks * block + end.size()};
    }
    ~Tiled() {munmap(m_base, m_size);}
    Tiled(const Tiled&) = delete;

    string_view text;
private:
    char* m_base;
    size_t m_size;
};

// Only so much memory for results.
class Slots
{
public:
    static constexpr int N = 4;
    Slots() : m_fd(memfd_create("slots", MFD_CLOEXEC)) {}
    void take(int n)
    {
        // The first ones in order, or any one.
        if (n == 1)
            for (;; usleep(20000))
                for (int i = N; i--;)
                    if (lock(i, F_WRLCK, F_SETLK))
                        return;
        for (int i = 0; i < n; ++i)
            lock(i, F_WRLCK, F_SETLKW);
    }
    void release()
    {
        for (int i = 0; i < N; ++i)
            lock(i, F_UNLCK, F_SETLK);
    }
private:
    bool lock(int i, short type, int cmd)
    {
        struct flock f{};
        f.l_type = type;
        f.l_whence = SEEK_SET;
        f.l_start = i;
        f.l_len = 1;
        return fcntl(m_fd, cmd, &f) == 0;
    }
    int m_fd;
};

struct Parts
{
    string head, unit, tail;
    string other_head, other_tail;          // the other text's
};

// A position in the text: so many units and bytes from its start.
struct Pos
{
    int from = 0;                   // 0 start, 1 middle, 2 end, 3 npos
    int64_t plus = 0;
};

// Cases are shared out so that every function is called equally often.
static std::atomic<uint64_t>* g_turn;
static Slots* g_slots;              // shared by all processes

// Take long for each byte.
static bool slow(Big kind)
{
    switch (kind)
    {
    case Big::COUNT_CHARS: case Big::CHAR_POS: case Big::CHAR_RANGE: case Big::CHAR_SUBSTRING: case Big::CI_COMPARE:
    case Big::CI_ENDS_WITH: case Big::CI_EQUAL: case Big::CI_LESS: case Big::CI_SPLIT: case Big::CI_SPLIT_CHARS:
    case Big::CI_STARTS_WITH: case Big::CI_REPLACE: case Big::TO_LOWER: case Big::TO_UPPER: case Big::TO_TITLE:
    case Big::TO_COMPOSED: case Big::TO_DECOMPOSED: case Big::REVERSE: case Big::INSERT_CHARS: case Big::REPLACE_CHARS:
    case Big::SPLIT_CHARS: case Big::CI_FIND_FIRST: case Big::CI_FIND_LAST: case Big::CI_FIRST_OF: case Big::CI_LAST_OF:
        return true;
    default:
        return false;
    }
}

static bool in(Big kind, std::initializer_list<Big> kinds)
{
    return std::find(kinds.begin(), kinds.end(), kind) != kinds.end();
}

// Take code point or character indexes.
static bool indexes(Big kind)
{
    return in(kind, {Big::CHAR_POS, Big::CHAR_RANGE, Big::CHAR_SUBSTRING, Big::CODEPOINT, Big::CODEPOINT_POS,
                     Big::CODEPOINT_SUBSTRING, Big::INSERT_CHARS, Big::INSERT_CODEPOINT, Big::REPLACE_CHARS,
                     Big::REPLACE_CODEPOINTS});
}

static bool attempt(Src& src, Ctx& ctx, Big kind, int log, unsigned round)
{
    ctx.reset();
    pbt::time_limit(0);

    auto makes_text = kind >= Big::APPEND;
    auto makes_views = in(kind, {Big::SPLIT, Big::SPLIT_CHARS, Big::SPLIT_LINES, Big::SPLIT_WHERE, Big::CI_SPLIT,
                                 Big::CI_SPLIT_CHARS});
    Parts p;
    api::BigArgs a;
    Pos offset, index, index2, max;
    uint64_t negative;
    size_t unit_cps = 1, head_cps = 0;
    uint64_t extra;
    auto cps = [&](const string& s) {return model::decode(s).value_or(Text(1, U'a'));};

    // Most: a single mark, which is looked for or refered to, beyond or before
    // the long part.
    auto aimed = src.flag(3, 4);
    if (aimed)
    {
        auto letter = [&]() -> char32_t
        {
            if (slow(kind) || src.flag(4, 5))
                return U'a' + char32_t(src.choose(0, 25));
            return U"\u00E6\u0416\u4E00\U00010428\u0100"[src.choose(0, 4)];
        };
        static constexpr std::u32string_view NEWLINE[] = {U"\n", U"\r\n", U"\r", U"\u2028", U"\u0085"};
        auto mark = Text(1, src.flag(1, 2) ? U'X' : U'\u0414');
        if (in(kind, {Big::FIRST_NEWLINE, Big::LAST_NEWLINE, Big::SPLIT_LINES}))
            mark = Text(NEWLINE[src.flag(1, 2) ? 1 : src.choose(0, 4)]);
        else if (in(kind, {Big::ESCAPABLE, Big::HAS_ESCAPABLE, Big::ESCAPE}))
            mark = src.flag(1, 2) ? U"\"" : U"\n";
        else if (in(kind, {Big::ESCAPED, Big::HAS_ESCAPED, Big::UNESCAPE, Big::UNESCAPE_NEXT}))
            mark = src.flag(1, 2) ? U"\\n" : U"\\u00E6";
        else if (in(kind, {Big::NEXT_CHAR, Big::PREV_CHAR, Big::CHAR_RANGE, Big::REVERSE, Big::TO_COMPOSED}) && src.flag(1, 2))
            mark = U"e\u0301";
        else if (kind == Big::TO_DECOMPOSED)
            mark = U"\u00C4";
        Text unit;
        if (kind == Big::TO_UTF32)
            unit = Text(1, U"\U00010428\u4E00\u0416"[src.choose(0, log == 32 ? 0 : 2)]);
        else if (indexes(kind))
            unit = Text(1, U'a' + char32_t(src.choose(0, 25)));
        else
            for (auto n = src.choose(1, 3); n--;)
                unit += letter();
        p.unit = model::enc(unit);
        auto m = model::enc(mark);
        auto where = src.choose_by(0, 2, [&]() {return round % 3;});
        auto letters = [&](size_t n)
        {
            string r;
            for (auto i = src.choose(0, n); i--;)
                r += model::enc(letter());
            return r;
        };
        p.head = letters(3);
        p.tail = letters(3);
        // At the far end, in both, or at the near one.
        bool back = in(kind, {Big::FIND_LAST, Big::LAST_NEWLINE, Big::LAST_OF, Big::LAST_OF_SET, Big::LAST_WHERE,
                              Big::CI_FIND_LAST, Big::CI_LAST_OF, Big::TRIM_END, Big::PREV_CHAR});
        if (where == 1 || (where == 0) == back)
            p.head += m + letters(2);
        if (where == 1 || (where == 0) != back)
            p.tail = letters(2) + m + p.tail;
        p.other_head = p.head;
        p.other_tail = p.tail;
        if (where == 1)
            (src.flag(1, 2) ? p.other_head : p.other_tail) += 'Z';
        a.needle = m;
        a.list = mark;
        a.c1 = mark[0];
        a.c2 = src.flag(1, 2) ? U'q' : U'\u20AC';
        a.to = src.flag(1, 2) ? "" : "<>";
        if (in(kind, {Big::TRIM, Big::TRIM_END, Big::TRIM_START, Big::TRIM_WHERE}))
            a.list = unit + (src.flag(1, 2) ? cps(p.head) : cps(p.tail));
        auto near = [&](int from)
        {
            Pos q;
            q.from = from;
            q.plus = int64_t(src.choose(0, 12)) - 6;
            return q;
        };
        offset = near(src.choose_by(0, 3, [&]() {return where == 0 ? back ? 3 : 0 : 2;}));
        // A search from its near end, or close to the far end.
        if (offset.from == 0)
            offset.plus = 0;
        index = near(int(src.choose_by(0, 3, [&]() {return 2;})));
        index2 = near(2);
        if (src.flag(1, 3))
            index2.from = src.flag(1, 2) ? 0 : 1;
        max.from = int(src.choose_by(0, 4, [&]() {return src.raw(1) ? 2 : 4;}));
        max.plus = int64_t(src.choose(0, 2));
        negative = src.choose_by(0, 7, [&]() {return round % 2 ? 7 : 0;});
        if (src.flag(1, 4))
            negative ^= 2;
        head_cps = cps(p.head).size();
        unit_cps = unit.size();
        extra = 8192 + 8 * src.choose(0, 7);
    }
    else
    {
        static const unsigned focus[] = {gen::ASCII, gen::ANY, gen::CASE, gen::MARKS | gen::LETTERS,
                                         gen::NEWLINES | gen::SPACES, gen::ESCAPES, gen::NORM};
        auto f = focus[slow(kind) && src.flag(1, 2) ? 0 : src.choose(0, std::size(focus) - 1)];
        auto alphabet = gen::alphabet(src, f, 4);
        auto few = [&](size_t max)
        {
            string s;
            auto n = src.choose(0, max);
            while (n--)
                s += model::enc(src.flag(1, 4) ? gen::cp(src, f) : src.pick(alphabet));
            return s;
        };
        p.unit = few(5) + model::enc(src.pick(alphabet));
        p.head = few(4);
        p.tail = few(4);
        if (src.flag(1, 12))
            (src.flag(1, 2) ? p.tail : p.head) += gen::broken(src);
        auto bytes_ok = in(kind, {Big::SKIP, Big::SKIP_BACK, Big::REPLACE_INVALID, Big::POP_REMOVE, Big::VALID});
        if (src.flag(1, bytes_ok ? 4 : 40))
            p.unit += gen::broken(src);
        else if (src.flag(1, bytes_ok ? 2 : 40))
            // One long run of the same byte, which belongs to what is before it.
            p.unit = string(1, char(src.flag(2, 3) ? 0x80 + src.choose(0, 63) : 0xC0 + src.choose(0, 63)));
        p.other_head = src.flag(1, 4) ? few(4) : p.head;
        p.other_tail = src.flag(1, 2) ? few(4) : p.tail;
        a.needle = src.flag(1, 2) ? few(3) : p.unit + p.tail;
        if (src.flag(1, 4))
            a.needle = p.tail;
        else if (src.flag(1, 4))
            a.needle = p.head;
        a.to = few(2);
        // Qualifying: all but something, or something.
        a.list = src.flag(1, 2) ? cps(p.unit) : cps(p.tail + p.head);
        if (src.flag(1, 3))
            a.list += cps(p.head);
        if (makes_views && src.flag(4, 5))
        {
            a.needle = src.flag(1, 2) ? p.tail : p.head;
            a.list = cps(a.needle);
        }
        a.c1 = src.flag(1, 2) ? src.pick(alphabet) : gen::cp(src, f);
        a.c2 = gen::cp(src, f);
        if (kind == Big::CONTAINS && src.flag(1, 2) && !p.tail.empty())
            a.c1 = cps(p.tail).back();

        auto gen_pos = [&](size_t unit)
        {
            Pos q;
            q.from = int(src.choose(0, 3));
            q.plus = int64_t(src.choose(0, 2 * unit + 6)) - int64_t(unit) - 3;
            return q;
        };
        offset = gen_pos(p.unit.size());
        if ((kind >= Big::FIND_LAST && kind <= Big::LAST_WHERE) && src.flag(1, 2))
            offset.from = 3;
        // Indexes count code points (or characters: nearly the same).
        unit_cps = model::decode(p.unit).value_or(Text(1, U'a')).size();
        if (in(kind, {Big::CHAR_POS, Big::CHAR_RANGE, Big::CHAR_SUBSTRING, Big::INSERT_CHARS, Big::REPLACE_CHARS}))
            if (auto t = model::decode(p.unit + p.unit))
                unit_cps = std::max<size_t>(model::chars(*t).size() - model::chars(*model::decode(p.unit)).size(), 1);
        head_cps = model::decode(p.head).value_or(Text()).size();
        index = gen_pos(unit_cps);
        index2 = gen_pos(unit_cps);
        max = gen_pos(1);
        negative = src.choose(0, 7);
        // Slightly more or less.
        extra = uint64_t(int64_t(src.choose(0, 4)) - 1) * 4;
        if (p.unit.size() > 1 ? src.flag(1, 3) : !src.flag(1, 3))
            extra += 2048;
    }
    uint64_t reps = ((uint64_t(1) << log) / p.unit.size() + extra) & ~uint64_t(1);

    const char* name = api::BIG_NAMES[size_t(kind)];
    ctx.note("call", string(name));
    ctx.note("head", p.head);
    ctx.note("unit", p.unit);
    ctx.note_n("units", int64_t(reps));
    ctx.note("tail", p.tail);
    ctx.note("needle", a.needle);
    ctx.note("to", a.to);
    ctx.note("list", a.list);
    ctx.note_cp("c1", a.c1);
    ctx.note_cp("c2", a.c2);
    ctx.cls(name);

    auto position = [&](Pos q, uint64_t n, size_t unit, size_t head, size_t size)
    {
        uint64_t v = q.from == 0 ? 0 : q.from == 1 ? head + n / 2 * unit : q.from == 2 ? size : SIZE_MAX;
        return q.from == 3 ? v : v + uint64_t(q.plus);
    };
    auto call = [&](string_view s, string_view other, uint64_t n)
    {
        a.s = s;
        a.other = other;
        auto o = position(offset, n, p.unit.size(), p.head.size(), s.size());
        // Offsets beyond the end are for the functions which count from it.
        a.offset = o > s.size() && offset.from != 3 ? s.size() : o;
        bool forward = kind == Big::FIND_FIRST || kind == Big::FIRST_NEWLINE || kind == Big::FIRST_OF
                       || kind == Big::FIRST_OF_SET || kind == Big::FIRST_WHERE || kind == Big::NEXT_CHAR
                       || kind == Big::PREV_CHAR || kind == Big::CI_FIND_FIRST || kind == Big::CI_FIRST_OF
                       || kind == Big::ESCAPABLE || kind == Big::ESCAPED;
        if (forward && a.offset > s.size())
            a.offset = 0;
        auto count = head_cps + n * unit_cps;
        auto i = position(index, n, unit_cps, head_cps, count), i2 = position(index2, n, unit_cps, head_cps, count);
        a.index = index.from == 3 ? PTRDIFF_MAX : ptrdiff_t(i);
        a.index2 = index2.from == 3 ? PTRDIFF_MAX : ptrdiff_t(i2);
        if (negative & 1)
            a.index = -a.index;
        if (negative & 2)
            a.index2 = -a.index2;
        auto m = position(max, n, 1, 0, n);
        a.max = max.from == 3 ? PTRDIFF_MAX : ptrdiff_t(m);
        if (max.from == 4)
            a.max = (ptrdiff_t(1) << log) + max.plus;
        if ((negative & 4) && makes_text)
            a.max = -a.max;
        return api::big(kind, a);
    };
    auto small = [&](uint64_t n)
    {
        string u;
        for (uint64_t i = 0; i < n; ++i)
            u += p.unit;
        return call(p.head + u + p.tail, p.other_head + u + p.other_tail, n);
    };

    // How the result depends on the number of units.
    const uint64_t n0 = 64, step = 2;
    auto r0 = small(n0), r1 = small(n0 + step), r2 = small(n0 + 2 * step);
    auto regular = r0.threw == r1.threw && r1.threw == r2.threw
                   && r0.v.numbers.size() == r1.v.numbers.size() && r1.v.numbers.size() == r2.v.numbers.size();
    auto& v0 = r0.v;
    auto& v1 = r1.v;
    auto& v2 = r2.v;
    for (size_t i = 0; regular && i < v0.numbers.size(); ++i)
        regular = v1.numbers[i] - v0.numbers[i] == v2.numbers[i] - v1.numbers[i];
    size_t growth = v1.text.size() - v0.text.size();
    if (regular && makes_text && !r0.threw)
        regular = v2.text.size() - v1.text.size() == growth && v0.text.size() <= v1.text.size();
    if (!regular)
    {
        ctx.cls("not regular");
        return false;
    }
    auto steps = (reps - n0) / step;
    auto big_size = v0.text.size() + steps * growth;
    // Results which need too much memory.
    if (makes_text && big_size > (log == 31 ? uint64_t(3) << 30 : uint64_t(5) << 30))
    {
        ctx.cls("too much memory");
        return false;
    }
    if (makes_views && !v0.numbers.empty() && v1.numbers[0] - v0.numbers[0])
    {
        ctx.cls("too many parts");
        return false;
    }

    // Occurrences to be replaced from the end are put in a list.
    if (in(kind, {Big::REPLACE, Big::REPLACE_CODEPOINT, Big::CI_REPLACE}) && negative & 4)
    {
        auto to = a.to;
        auto c2 = a.c2;
        a.to = "1234567890";
        a.c2 = c2 < 128 ? U'\U00010000' : U'a';
        auto x0 = small(n0), x1 = small(n0 + step);
        a.to = to;
        a.c2 = c2;
        if (x0.threw || x1.v.text.size() - x0.v.text.size() != growth)
        {
            ctx.cls("too many matches");
            return false;
        }
    }

    // With a few million bytes, which also tells how long it should take.
    auto expect = [&](const Res<api::BigResult>& r, size_t size, uint64_t steps)
    {
        if (r.threw != r0.threw)
            fail(string(name) + (r.threw ? " throws" : " does not throw") + " for " + show(size)
                 + " bytes, unlike for short texts");
        if (r.threw)
            return;
        auto& v = r.v;
        if (v.numbers.size() != v0.numbers.size())
            fail(string(name) + " gives another kind of result for a long text");
        for (size_t i = 0; i < v.numbers.size(); ++i)
        {
            auto expected = v0.numbers[i] + steps * (v1.numbers[i] - v0.numbers[i]);
            if (v.numbers[i] != expected)
                fail(string(name) + ": number " + show(i) + " of the result is " + show(v.numbers[i])
                     + " for a text of " + show(size) + " bytes, expected " + show(expected));
        }
        if (makes_text && v.text.size() != v0.text.size() + steps * growth)
            fail(string(name) + " gives " + show(v.text.size()) + " bytes for a text of " + show(size)
                 + " bytes, expected " + show(v0.text.size() + steps * growth));
    };
    double factor = 1;
    {
        auto n = std::max<uint64_t>((uint64_t(1) << 24) / p.unit.size() & ~uint64_t(1), n0);
        n += extra & ~uint64_t(1);
        factor = double(reps) / double(n);
        Tiled text(p.head, p.unit, n, p.tail), other(p.other_head, p.unit, n, p.other_tail);
        auto start = clock();
        auto r = call(text.text, other.text, n);
        // With a wide margin.
        pbt::time_limit(20 + 5 * factor * double(clock() - start) / CLOCKS_PER_SEC);
        expect(r, text.text.size(), (n - n0) / step);
    }

    if (makes_text)
        g_slots->take(std::min<int>(Slots::N, int(1 + big_size * 2 / (uint64_t(6) << 30))));
    struct Release
    {
        ~Release() {g_slots->release();}
    } release;
    Tiled text(p.head, p.unit, reps, p.tail);
    bool two = kind == Big::STARTS_WITH || kind == Big::ENDS_WITH || (kind >= Big::CI_COMPARE && kind <= Big::CI_EQUAL)
               || kind == Big::CI_LESS || kind == Big::CI_STARTS_WITH;
    Tiled other(p.other_head, p.unit, two ? reps : 1, p.other_tail);
    auto r = call(text.text, other.text, reps);
    expect(r, text.text.size(), steps);
    if (r.threw)
        return true;
    auto& v = r.v;
    if (makes_text)
    {
        auto& t = v.text;
        // Its ends are those of the short result, between them it repeats
        // itself (on either side of the middle).
        auto ends = v0.text.size() / 2 / 2;
        if (t.compare(0, ends, v0.text, 0, ends) != 0)
            fail(string(name) + ": the start of the result differs from that for a short text");
        if (t.compare(t.size() - ends, ends, v0.text, v0.text.size() - ends, ends) != 0)
            fail(string(name) + ": the end of the result differs from that for a short text");
        if (growth && t.size() > 2 * growth)
        {
            // What differs from the period is near places where the short
            // result's does too.
            auto breaks = [&](const string& x)
            {
                size_t n = 0;
                auto a = x.data(), b = x.data() + growth;
                size_t left = x.size() - growth;
                while (left)
                {
                    // In big steps as long as all is equal.
                    size_t k = std::min<size_t>(left, 1 << 16);
                    if (memcmp(a, b, k) != 0)
                        for (size_t i = 0; i < k; ++i)
                            n += a[i] != b[i];
                    a += k;
                    b += k;
                    left -= k;
                }
                return n;
            };
            auto b0 = breaks(v0.text), b1 = breaks(v1.text), b2 = breaks(v2.text);
            if (b0 == b1 && b1 == b2)
            {
                auto b = breaks(t);
                if (b != b0)
                    fail(string(name) + ": the result for a text of " + show(text.text.size())
                         + " bytes is irregular in " + show(b) + " places, those for short texts in " + show(b0));
                ctx.cls("text compared");
            }
            else
                ctx.cls("text of two periods");
        }
    }
    ctx.nontrivial = true;
    ctx.cls(log == 31 ? "about 2^31 bytes" : "about 2^32 bytes");
    return true;
}

static void run_case(Src& src, Ctx& ctx)
{
    // Those which make texts take longest and have to wait for each other.
    constexpr auto N = uint64_t(Big::N), SHORT = uint64_t(Big::APPEND);
    static_assert(SHORT >= 2 * (N - SHORT));
    uint64_t turn = g_turn->load();
    auto kind = Big(src.choose_by(0, N - 1, [&]()
    {
        turn = (*g_turn)++;
        auto i = turn % N;
        return i >= 3 * (N - SHORT) ? N - 1 - i : i % 3 == 0 ? SHORT + i / 3 : SHORT - 1 - i / 3 * 2 - (i % 3 - 1);
    }));
    auto log = 31 + int(src.choose_by(0, 1, [&]() {return uint64_t(slow(kind) ? kind < Big::APPEND && (src.raw(4) + turn / N) % 2 : src.raw(4) != 0);}));
    for (int i = 0; i < 30; ++i)
        if (attempt(src, ctx, kind, log, unsigned(turn / N)))
            return;
}

Property pbt::make_property()
{
    load_model();
    Property p;
    p.id = "C31";
    p.rule = "A case is a call of one of the public functions on a text of about 2^31 or 2^32 bytes, which consists of a "
             "head, a unit repeated very often and a tail (the same pages mapped again and again), with offsets, "
             "indexes, limits and needles at its start, middle and end. The numbers in the result must be those "
             "extrapolated from texts with 64, 66 and 68 units (for which they grow evenly; other cases are given up), and "
             "a text in the result must have the extrapolated length, the ends it has for short texts and the same "
             "number of irregularities between them. Non-trivial: the call was made on a long text and returned.";
    g_turn = (std::atomic<uint64_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_slots = new Slots;
    p.run = run_case;
    p.heavy = true;
    p.quick_cases = 2 * uint64_t(Big::N);
    p.thorough_cases = 100000;
    return p;
}
