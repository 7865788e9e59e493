// C27, second program: calls from several threads, under ThreadSanitizer.
#include "ops.hpp"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <set>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

struct Shared
{
    std::vector<ops::Call> calls;
    std::vector<std::vector<size_t>> orders;
    std::vector<std::vector<string>> results;
    std::atomic<unsigned> ready = 0;
};

// Runs in a child in which no calls have been made.
static string run_threads(Shared& s)
{
    auto n = s.orders.size();
    s.results.resize(n);
    std::vector<std::thread> threads;
    for (size_t t = 0; t < n; ++t)
        threads.emplace_back([&s, t, n]()
        {
            ++s.ready;
            while (s.ready < n)
            {}
            for (auto i : s.orders[t])
            {
                try
                {
                    s.results[t].push_back(s.calls[i].run());
                }
                catch (pbt::Failure& f)
                {
                    s.results[t].push_back("FAILURE " + f.msg);
                }
            }
        });
    for (auto& t : threads)
        t.join();
    // Now alone.
    std::vector<string> alone;
    for (auto& c : s.calls)
    {
        try
        {
            alone.push_back(c.run());
        }
        catch (pbt::Failure& f)
        {
            alone.push_back("FAILURE " + f.msg);
        }
    }
    for (size_t t = 0; t < n; ++t)
        for (size_t k = 0; k < s.orders[t].size(); ++k)
        {
            auto i = s.orders[t][k];
            if (s.results[t][k] != alone[i])
                return s.calls[i].name + " gives " + s.results[t][k].substr(0, 300) + " in a thread among others, but "
                       + alone[i].substr(0, 300) + " alone";
        }
    return {};
}

static Property threads()
{
    Property p;
    p.id = "C27";
    p.rule = "A case is a list of calls of any of the public functions on a small pool of byte strings, made at the same "
             "time by two to four threads of a new process, each in an order of its own, and then by one thread alone. "
             "All results must be the same, and ThreadSanitizer must see no race. Non-trivial: at least two threads "
             "make the same call.";
    p.forks = true;
    p.run = [](Src& src, Ctx& ctx)
    {
        auto pool = src.flag(1, 3) ? ops::make_short_pool(src, ctx) : ops::make_pool(src, ctx, src.choose(1, 2));
        ops::Maker maker(src, pool, ctx.describe);
        Shared s;
        auto n = src.choose(1, 12);
        for (uint64_t i = 0; i < n; ++i)
        {
            s.calls.push_back(maker.make());
            ctx.mix(s.calls.back().name.data(), s.calls.back().name.size());
            if (ctx.describe)
                ctx.text += " " + s.calls.back().name + "(" + s.calls.back().text + ");";
        }
        auto n_threads = src.choose(2, 4);
        ctx.note_n("threads", int64_t(n_threads));
        ctx.nontrivial = false;
        std::set<size_t> used;
        for (uint64_t t = 0; t < n_threads; ++t)
        {
            std::vector<size_t> order;
            std::set<size_t> mine;
            auto k = src.choose(1, 16);
            while (k--)
                order.push_back(src.choose(0, n - 1));
            for (auto i : order)
            {
                ctx.mix_u64(i);
                mine.insert(i);
            }
            for (auto i : mine)
                ctx.nontrivial |= !used.insert(i).second;
            s.orders.push_back(order);
        }
        int fd[2];
        if (pipe(fd) != 0)
            exit(3);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0)
            exit(3);
        if (pid == 0)
        {
            close(fd[0]);
            signal(SIGVTALRM, SIG_DFL);
            itimerval t{{0, 0}, {40, 0}};
            setitimer(ITIMER_VIRTUAL, &t, nullptr);
            auto m = run_threads(s).substr(0, 4000);
            (void)!write(fd[1], m.data(), m.size());
            _exit(0);
        }
        close(fd[1]);
        string m;
        char buf[4096];
        while (true)
        {
            auto k = read(fd[0], buf, sizeof buf);
            if (k < 0 && errno == EINTR)
                continue;
            if (k <= 0)
                break;
            m.append(buf, size_t(k));
        }
        close(fd[0]);
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        {}
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
            raise(SIGKILL);
        if (WIFSIGNALED(st))
            fail("threads: the calls end with signal " + std::to_string(WTERMSIG(st)));
        if (WEXITSTATUS(st) == 77)
            fail("threads: ThreadSanitizer reports a race (see stderr)");
        if (WEXITSTATUS(st))
            fail("threads: the calls end with exit code " + std::to_string(WEXITSTATUS(st)));
        if (!m.empty())
            fail("threads: " + m);
        ctx.cls(n_threads == 2 ? "2 threads" : n_threads == 3 ? "3 threads" : "4 threads");
    };
    p.quick_cases = 10000;
    p.thorough_cases = 400000;
    return p;
}

Property pbt::make_property()
{
    load_model();
    return threads();
}
