// C24 (robustness) and C27 (independence of history and memory).
#include "ops.hpp"
#include <cerrno>
#include <clocale>
#include <csignal>
#include <cstring>
#include <locale>
#include <malloc.h>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

static Property c24()
{
    Property p;
    p.id = "C24";
    p.rule = "A case is a few calls of any of the public functions on a pool of byte strings (text, text cut off, broken "
             "UTF-8, repetitions, random bytes) with indexes, limits, code point values and sets which are often extreme, "
             "in exactly fitting or embedded memory. Judged by AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ "
             "assertions, limits of time and memory, and by checks that nothing but YstringException is thrown, that "
             "views and ranges lie inside the input and that inputs are unmodified. Non-trivial: undecodable bytes, or "
             "an index or code point value out of bounds.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto pool = ops::make_pool(src, ctx, src.choose(1, 3));
        ops::Maker maker(src, pool, ctx.describe);
        std::vector<ops::Call> calls;
        std::vector<api::Placement> placements;
        auto n = src.choose(1, 6);
        bool bad = std::any_of(pool.strings.begin(), pool.strings.end(), [](auto& s) {return !model::valid(s);});
        for (uint64_t i = 0; i < n; ++i)
        {
            calls.push_back(maker.make());
            placements.push_back(ops::gen_placement(src));
            bad |= calls.back().odd;
            ctx.cls(ops::intern(calls.back().name));
            ctx.mix(calls.back().name.data(), calls.back().name.size());
        }
        ops::note_calls(ctx, calls);
        ctx.nontrivial = bad;
        for (size_t i = 0; i < calls.size(); ++i)
        {
            api::placement = placements[i];
            auto r = calls[i].run();
            ctx.mix(r.data(), r.size());
            api::placement = {};
        }
    };
    p.quick_cases = 1000000;
    p.thorough_cases = 60000000;
    return p;
}

// Results of the calls, made in a child which has made no calls before, in
// the given order (indexes may be repeated).
struct Order
{
    std::vector<size_t> order;
    std::vector<api::Placement> placements;
    // The process's state: what must not matter.
    bool c_locale = false, cpp_locale = false;
    int error = 0;
    unsigned char heap = 0, stack = 0;  // what unused memory contains
};

// Characters are classified and numbers written differently.
struct OddCtype : std::ctype<char>
{
    static const mask* odd_table()
    {
        static mask t[table_size];
        for (size_t i = 0; i < table_size; ++i)
            t[i] = classic_table()[(i * 7 + 3) % table_size];
        return t;
    }
    OddCtype() : std::ctype<char>(odd_table()) {}
    char do_toupper(char c) const override {return char(c ^ 1);}
    char do_tolower(char c) const override {return char(c ^ 2);}
};
struct OddNumbers : std::numpunct<char>
{
    char do_thousands_sep() const override {return '_';}
    string do_grouping() const override {return "\1";}
};

__attribute__((noinline)) static void dirty_stack(unsigned char c)
{
    char a[16000];
    memset(a, c, sizeof a);
    asm volatile("" : : "r"(a) : "memory");
}

static void set_state(const Order& o)
{
    // Chunks are filled when they are freed and when they are allocated.
    mallopt(M_PERTURB, o.heap);
    if (o.c_locale)
        setlocale(LC_ALL, "C.UTF-8");
    if (o.cpp_locale)
        std::locale::global(std::locale(std::locale(std::locale::classic(), new OddCtype), new OddNumbers));
}

static std::vector<string> run_pristine(const std::vector<ops::Call>& calls, const Order& o)
{
    int fd[2];
    if (pipe(fd) != 0)
        exit(3);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0)
        exit(3);
    if (pid == 0)
    {
        close(fd[0]);
        signal(SIGVTALRM, SIG_DFL);
        itimerval t{{0, 0}, {10, 0}};
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
        string out;
        auto put = [&](const string& s)
        {
            uint64_t n = s.size();
            out.append((const char*)&n, 8);
            out += s;
        };
        set_state(o);
        for (size_t i = 0; i < o.order.size(); ++i)
        {
            api::placement = o.placements[i];
            dirty_stack(o.stack);
            errno = o.error;
            try
            {
                put(calls[o.order[i]].run());
            }
            catch (pbt::Failure& f)
            {
                put("FAILURE " + f.msg);
            }
        }
        size_t done = 0;
        while (done < out.size())
        {
            auto n = write(fd[1], out.data() + done, out.size() - done);
            if (n <= 0)
                break;
            done += size_t(n);
        }
        _exit(0);
    }
    close(fd[1]);
    string in;
    char buf[65536];
    while (true)
    {
        auto n = read(fd[0], buf, sizeof buf);
        if (n < 0 && errno == EINTR)
            continue;
        if (n <= 0)
            break;
        in.append(buf, size_t(n));
    }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    {}
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
        raise(SIGKILL);              // the machine's doing
    if (WIFSIGNALED(st))
        fail("the calls end with signal " + std::to_string(WTERMSIG(st)));
    if (WEXITSTATUS(st))
        fail("the calls end with exit code " + std::to_string(WEXITSTATUS(st)));
    std::vector<string> r;
    size_t p = 0;
    while (p + 8 <= in.size())
    {
        uint64_t n;
        memcpy(&n, in.data() + p, 8);
        r.push_back(in.substr(p + 8, n));
        p += 8 + n;
    }
    if (r.size() != o.order.size())
        fail("a child gave too few results");
    return r;
}

static Order gen_order(Src& src, size_t n, bool shuffle)
{
    Order o;
    o.c_locale = src.flag(1, 4);
    o.cpp_locale = src.flag(1, 4);
    o.error = src.flag(1, 2) ? ERANGE : 0;
    o.heap = (unsigned char)src.choose(0, 255);
    o.stack = (unsigned char)src.choose(0, 255);
    for (size_t i = 0; i < n; ++i)
        o.order.push_back(i);
    if (shuffle)
        for (size_t i = n; i > 1; --i)
            std::swap(o.order[i - 1], o.order[src.choose(0, i - 1)]);
    // Some again.
    auto again = src.choose(0, 4);
    while (again--)
    {
        auto pos = src.choose(0, o.order.size());
        o.order.insert(o.order.begin() + ptrdiff_t(pos), src.choose(0, n - 1));
    }
    for (size_t i = 0; i < o.order.size(); ++i)
        o.placements.push_back(ops::gen_placement(src));
    return o;
}

static Property c27()
{
    Property p;
    p.id = "C27";
    p.rule = "A case is a list of calls of any of the public functions on a small pool of byte strings; two or three "
             "processes, forked from one which has made no calls at all, make the calls in different orders, some "
             "repeatedly, with the arguments elsewhere in memory (also inside each other) and with other bytes around "
             "them, another locale, errno, and contents of unused heap and stack memory. Every result must be the same. (A second program does the same from several threads under ThreadSanitizer.) "
             "Non-trivial: at least three calls, and one of them throws or has undecodable or extreme arguments.";
    p.forks = true;
    p.run = [](Src& src, Ctx& ctx)
    {
        auto pool = src.flag(2, 5) ? ops::make_short_pool(src, ctx) : ops::make_pool(src, ctx, src.choose(1, 3));
        ops::Maker maker(src, pool, ctx.describe);
        std::vector<ops::Call> calls;
        auto n = src.choose_by(1, 60, [&]() {return src.raw(4) ? 1 + src.raw(12) : 1 + src.raw(60);});
        bool bad = std::any_of(pool.strings.begin(), pool.strings.end(), [](auto& s) {return !model::valid(s);});
        for (uint64_t i = 0; i < n; ++i)
        {
            calls.push_back(maker.make());
            bad |= calls.back().odd;
            ctx.mix(calls.back().name.data(), calls.back().name.size());
        }
        ops::note_calls(ctx, calls);
        std::vector<std::optional<string>> results(calls.size());
        size_t orders = 2 + src.flag(1, 4);
        for (size_t k = 0; k < orders; ++k)
        {
            auto o = gen_order(src, calls.size(), k != 0);
            auto r = run_pristine(calls, o);
            for (size_t i = 0; i < r.size(); ++i)
            {
                auto c = o.order[i];
                if (r[i].starts_with("FAILURE "))
                    fail(r[i].substr(8));
                bad |= r[i].starts_with("YstringException");
                if (!results[c])
                    results[c] = r[i];
                else if (*results[c] != r[i])
                {
                    string order;
                    for (size_t q = 0; q <= i; ++q)
                        order += " " + calls[o.order[q]].name;
                    fail(calls[c].name + " gives " + r[i].substr(0, 300) + " after the calls" + order
                         + ", but " + results[c]->substr(0, 300) + " otherwise");
                }
            }
        }
        for (auto& r : results)
            ctx.mix(r->data(), r->size());
        ctx.nontrivial = n >= 3 && bad;
        ctx.cls(n < 3 ? "1-2 calls" : n < 13 ? "3-12 calls" : "more calls");
    };
    p.quick_cases = 130000;
    p.thorough_cases = 6000000;
    return p;
}

Property pbt::make_property()
{
    load_model();
    string id = getenv("PBT_PROPERTY");
    return id == "C24" ? c24() : c27();
}
