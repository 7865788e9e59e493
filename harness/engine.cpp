#include "engine.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
    // ---------------------------------------------------------------- utils
    void fail(const std::string& msg)
    {
        throw Failure{msg};
    }

    // The case makes more choices than the tape holds: it is given up.
    struct Discard {};

    static uint64_t splitmix(uint64_t& s)
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    static uint64_t mix3(uint64_t a, uint64_t b, uint64_t c)
    {
        uint64_t s = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15) * 0xD6E8FEB86659FD93ull ^ c;
        splitmix(s);
        return splitmix(s);
    }

    std::string hex(uint64_t v)
    {
        char b[32];
        snprintf(b, sizeof b, "%llX", (unsigned long long)v);
        return b;
    }

    std::string quote(std::string_view s)
    {
        std::string r = "\"";
        size_t shown = std::min<size_t>(s.size(), 400);
        for (size_t i = 0; i < shown; ++i)
        {
            auto c = (unsigned char)s[i];
            if (c == '"' || c == '\\')
                (r += '\\') += char(c);
            else if (c >= 32 && c < 127)
                r += char(c);
            else
            {
                char b[8];
                snprintf(b, sizeof b, "\\x%02X", c);
                r += b;
            }
        }
        r += '"';
        if (shown < s.size())
        {
            uint64_t h = 0;
            for (auto c : s)
                h = (h ^ (unsigned char)c) * 0x100000001B3ull + 1;
            r += "...(" + std::to_string(s.size()) + " bytes, #" + hex(h) + ")";
        }
        return r;
    }

    std::string quote(const std::u32string& s)
    {
        std::string r = "<";
        size_t shown = std::min<size_t>(s.size(), 120);
        for (size_t i = 0; i < shown; ++i)
        {
            if (i)
                r += ' ';
            if (s[i] > 32 && s[i] < 127)
                r += char(s[i]);
            else
                r += "U+" + hex(s[i]);
        }
        if (shown < s.size())
        {
            uint64_t h = 0;
            for (auto c : s)
                h = (h ^ c) * 0x100000001B3ull + 1;
            r += " ...(" + std::to_string(s.size()) + ", #" + hex(h) + ")";
        }
        return r + ">";
    }

    void Ctx::mix(const void* p, size_t n)
    {
        auto b = (const unsigned char*)p;
        for (size_t i = 0; i < n; ++i)
            hash = (hash ^ b[i]) * 1099511628211ull;
        hash = (hash ^ n) * 1099511628211ull;
    }
    static int g_text_fd = -1;

    // So that it is known whatever happens to this process.
    static void save(const std::string& text)
    {
        if (g_text_fd >= 0 && ftruncate(g_text_fd, 0) == 0 && pwrite(g_text_fd, text.data(), text.size(), 0) < 0)
            perror("pwrite");
    }
    void Ctx::add(const char* name, const std::string& value)
    {
        if (!text.empty())
            text += ' ';
        text += name;
        text += '=';
        text += value;
        save(text);
    }
    void Ctx::note(const char* name, std::string_view bytes)
    {
        mix(bytes.data(), bytes.size());
        if (describe)
            add(name, quote(bytes));
    }
    void Ctx::note(const char* name, const std::u32string& s)
    {
        mix(s.data(), s.size() * 4);
        if (describe)
            add(name, quote(s));
    }
    void Ctx::note_n(const char* name, int64_t v)
    {
        mix_u64(uint64_t(v));
        if (describe)
            add(name, std::to_string(v));
    }
    void Ctx::note_cp(const char* name, char32_t v)
    {
        mix_u64(v);
        if (describe)
            add(name, "U+" + hex(v));
    }
    void Ctx::cls(const char* name)
    {
        for (auto c : classes)
            if (c == name)
                return;
        classes.push_back(name);
    }
    void Ctx::reset()
    {
        nontrivial = false;
        hash = 1469598103934665603ull;
        text.clear();
        classes.clear();
    }

    // ------------------------------------------------------------- coverage
    namespace cov
    {
        constexpr size_t MAP = 1 << 16;
        static uint8_t counters[MAP];
        static uint8_t seen[MAP];
        static uint32_t touched[MAP];
        static size_t n_touched = 0;
        static uintptr_t prev_pc = 0;
        static bool on = false;
        static size_t features = 0;
        static uint64_t dict_table[4096];
        static std::vector<uint64_t> dict;

        inline void hit(size_t idx)
        {
            idx &= MAP - 1;
            if (counters[idx] == 0)
                touched[n_touched++] = uint32_t(idx);
            if (counters[idx] != 255)
                ++counters[idx];
        }

        void begin()
        {
            n_touched = 0;
            prev_pc = 0;
            on = true;
        }

        bool end()
        {
            on = false;
            bool interesting = false;
            for (size_t i = 0; i < n_touched; ++i)
            {
                auto idx = touched[i];
                auto c = counters[idx];
                counters[idx] = 0;
                uint8_t bit = c >= 128 ? 128 : c >= 32 ? 64 : c >= 16 ? 32
                            : c >= 8 ? 16 : c >= 4 ? 8 : c == 3 ? 4 : c == 2 ? 2 : 1;
                if (!(seen[idx] & bit))
                {
                    seen[idx] |= bit;
                    ++features;
                    interesting = true;
                }
            }
            n_touched = 0;
            return interesting;
        }

        void add_const(uint64_t v)
        {
            auto& slot = dict_table[(v * 0x9E3779B97F4A7C15ull) >> 52];
            if (slot == v + 1)
                return;
            slot = v + 1;
            if (dict.size() < 6000 && std::find(dict.begin(), dict.end(), v) == dict.end())
                dict.push_back(v);
        }

        inline void cmp(uintptr_t pc, uint64_t a, uint64_t b, bool is_const)
        {
            if (!on)
                return;
            if (is_const)
            {
                add_const(a);
                hit((pc * 0x9E3779B1u >> 3) ^ (__builtin_popcountll(a ^ b) * 0x51ED27u) ^ 0x5555);
            }
        }
    }

    Meter meter;

    const std::vector<uint64_t>& dictionary()
    {
        return cov::dict;
    }

    static bool g_thorough = false;
    bool is_thorough()
    {
        return g_thorough;
    }
}

extern "C"
{
    extern char __executable_start;
#define PC (uintptr_t(__builtin_return_address(0)) - uintptr_t(&__executable_start))
    void __sanitizer_cov_trace_pc()
    {
        using namespace pbt::cov;
        ++pbt::meter.blocks;
        auto frame = uintptr_t(__builtin_frame_address(0));
        if (frame < pbt::meter.stack)
            pbt::meter.stack = frame;
        if (!on)
            return;
        auto pc = PC;
        hit((pc * 0x9E3779B1u >> 4) ^ prev_pc);
        prev_pc = (pc * 0x9E3779B1u >> 5);
    }
    void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) {pbt::cov::cmp(PC, a, b, false);}
    void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) {pbt::cov::cmp(PC, a, b, false);}
    void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) {pbt::cov::cmp(PC, a, b, false);}
    void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) {pbt::cov::cmp(PC, a, b, false);}
    void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) {pbt::cov::cmp(PC, a, b, true);}
    void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) {pbt::cov::cmp(PC, a, b, true);}
    void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) {pbt::cov::cmp(PC, a, b, true);}
    void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) {pbt::cov::cmp(PC, a, b, true);}
    void __sanitizer_cov_trace_cmpf(float, float) {}
    void __sanitizer_cov_trace_cmpd(double, double) {}
    void __sanitizer_cov_trace_switch(uint64_t v, void* cases)
    {
        auto c = (uint64_t*)cases;
        for (uint64_t i = 0; i < c[0] && i < 64; ++i)
            pbt::cov::cmp(PC + i, c[2 + i], v, true);
    }
}

namespace pbt
{
    // ------------------------------------------------------------------ Src
    Src::Src(uint64_t* tape, size_t capacity, size_t* length)
        : m_tape(tape), m_capacity(capacity), m_length(length)
    {}
    void Src::start_random(uint64_t seed)
    {
        m_rare = false;
        *m_length = 0;
        m_state = seed;
        m_random = true;
        m_tail = Tail::RANDOM;
    }
    void Src::start_tape(const std::vector<uint64_t>& t, Tail tail, uint64_t seed)
    {
        m_rare = false;
        *m_length = 0;
        m_input = t;
        m_pos = 0;
        m_state = seed;
        m_random = false;
        m_tail = tail;
    }
    uint64_t Src::raw()
    {
        return splitmix(m_state);
    }
    bool Src::next(uint64_t& v)
    {
        if (m_random)
            return false;
        if (m_pos < m_input.size())
        {
            v = m_input[m_pos++];
            return true;
        }
        if (m_tail == Tail::ZERO)
        {
            v = 0;
            return true;
        }
        return false;
    }
    void Src::record(uint64_t v)
    {
        if (*m_length < m_capacity)
            m_tape[(*m_length)++] = v;
        else
            throw Discard{};
    }
    uint64_t Src::choose(uint64_t lo, uint64_t hi)
    {
        uint64_t v, range = hi - lo + 1;
        if (!next(v))
            v = raw();
        if (range != 0 && v >= range)
            v %= range;
        record(v);
        return lo + v;
    }
    uint64_t Src::choose_by(uint64_t lo, uint64_t hi,
                            const std::function<uint64_t()>& gen)
    {
        uint64_t v, range = hi - lo + 1;
        if (!next(v))
            v = gen() - lo;
        if (range != 0 && v >= range)
            v %= range;
        record(v);
        return lo + v;
    }
    uint64_t Src::rare(const std::function<uint64_t()>& gen)
    {
        // Mutations won't hit this by chance.
        constexpr uint64_t TAG = 0x5AFE19ull << 32;
        auto v = choose_by(0, UINT64_MAX, [&]()
        {
            auto v = gen();
            return v ? TAG | v : 0;
        });
        if ((v & ~0xFFFFFFFFull) != TAG)
            return 0;
        m_rare = true;
        return v & 0xFFFFFFFF;
    }
    bool Src::flag(unsigned num, unsigned den)
    {
        uint64_t v;
        if (!next(v))
            v = raw(den) < num;
        v = v != 0 && num != 0;
        record(v);
        return v;
    }
    size_t Src::weighted(std::initializer_list<unsigned> weights)
    {
        uint64_t v;
        if (!next(v))
        {
            unsigned sum = 0;
            for (auto w : weights)
                sum += w;
            auto r = raw(sum);
            v = 0;
            for (auto w : weights)
            {
                if (r < w)
                    break;
                r -= w;
                ++v;
            }
        }
        v %= weights.size();
        record(v);
        return v;
    }

    // ------------------------------------------------------ shared worker state
    constexpr size_t TAPE_CAPACITY = 1 << 17;
    constexpr size_t MSG_CAPACITY = 8192;
    constexpr size_t MAX_CLASSES = 96;

    enum Status : int {RUNNING, DONE, FAILED, HUNG, MEMORY};

    struct Shared
    {
        std::atomic<int> status;
        std::atomic<uint64_t> cases;       // cases started
        std::atomic<uint64_t> sweep_index; // current/failed sweep index
        std::atomic<int> in_sweep;
        std::atomic<int> stop;
        uint64_t evaluations, nontrivial, sweeps, mutated, corpus, features, kept;
        size_t tape_length;
        uint64_t tape[TAPE_CAPACITY];
        char msg[MSG_CAPACITY];
        char class_names[MAX_CLASSES][64];
        uint64_t class_counts[MAX_CLASSES];
        size_t n_classes;
    };

    static Shared* map_shared()
    {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED)
        {
            perror("mmap");
            exit(3);
        }
        return (Shared*)p;
    }

    static Shared* g_shared = nullptr;
    static uint64_t g_hang_last = ~0ull;
    static int g_hang_ticks = 0;
    static int g_hang_limit = 40;          // quarter seconds of CPU time
    static bool g_heavy = false;
    static int g_case_limit = 0;           // of a heavy property's case
    constexpr uint64_t MAX_RSS = 2500ull << 20;

    static void on_tick(int)
    {
        if (!g_shared)
            return;
        int saved = errno;
        uint64_t key = g_shared->cases * 0x10001ull + g_shared->sweep_index;
        if (key != g_hang_last)
        {
            g_hang_last = key;
            g_hang_ticks = 0;
        }
        else if (++g_hang_ticks >= (g_case_limit ? g_case_limit : g_hang_limit * (g_heavy ? 16 : 1)))
        {
            g_shared->status = HUNG;
            _exit(66);
        }
        int fd = open("/proc/self/statm", O_RDONLY);
        if (fd >= 0)
        {
            char b[128];
            auto n = read(fd, b, sizeof b - 1);
            close(fd);
            if (n > 0)
            {
                b[n] = 0;
                char* p = strchr(b, ' ');
                uint64_t pages = p ? strtoull(p + 1, nullptr, 10) : 0;
                if (pages * 4096 > (g_heavy ? 8 : 1) * MAX_RSS)
                {
                    g_shared->status = MEMORY;
                    _exit(67);
                }
            }
        }
        errno = saved;
    }

    void time_limit(double seconds)
    {
        g_case_limit = int(std::min(seconds, 3600.0) * 4);
        g_hang_ticks = 0;
    }

    static void arm_watchdog(Shared* sh, int limit_quarters)
    {
        g_shared = sh;
        g_hang_limit = limit_quarters;
        g_hang_ticks = 0;
        g_hang_last = ~0ull;
        struct sigaction sa{};
        sa.sa_handler = on_tick;
        sa.sa_flags = SA_RESTART;
        sigaction(SIGVTALRM, &sa, nullptr);
        itimerval t{{0, 250000}, {0, 250000}};
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
    }

    static void set_msg(Shared* sh, const std::string& m)
    {
        auto n = std::min(m.size(), MSG_CAPACITY - 1);
        memcpy(sh->msg, m.data(), n);
        sh->msg[n] = 0;
    }

    static void run_guarded(const std::function<void()>& f, Ctx& ctx)
    {
        try
        {
            f();
        }
        catch (Discard&)
        {
            ctx.nontrivial = false;
            ctx.cls("given up (too many choices)");
        }
        catch (Failure&)
        {
            throw;
        }
        catch (std::exception& e)
        {
            throw Failure{std::string("unexpected exception in the check: ") + e.what()};
        }
    }

    // ------------------------------------------------------------------ worker
    struct Options
    {
        std::string out_dir = ".";
        uint64_t seed = 1;
        bool thorough = false;
        unsigned workers = 8;
        double max_seconds = 60;
        double scale = 1;
        std::string evidence, replay_dir, replay, dict_file, level = "exploration";
    };

    static double now()
    {
        using namespace std::chrono;
        return duration<double>(steady_clock::now().time_since_epoch()).count();
    }

    static std::vector<uint64_t>
    mutate(uint64_t& rng, const std::vector<std::vector<uint64_t>>& corpus)
    {
        // Prefer recent entries.
        size_t k = corpus.size();
        size_t i = splitmix(rng) % 2 ? k - 1 - splitmix(rng) % std::min<size_t>(k, 16)
                                     : splitmix(rng) % k;
        auto t = corpus[i];
        unsigned n = 1 + splitmix(rng) % 4;
        while (n-- && !t.empty())
        {
            size_t p = splitmix(rng) % t.size();
            switch (splitmix(rng) % 9)
            {
            case 0: t[p] = splitmix(rng) % 16; break;
            case 1: t[p] += 1 + splitmix(rng) % 2; break;
            case 2: t[p] -= 1 + splitmix(rng) % 2; break;
            case 3: t[p] = splitmix(rng); break;
            case 4:
                if (!cov::dict.empty())
                    t[p] = cov::dict[splitmix(rng) % cov::dict.size()];
                break;
            case 5:
            {
                size_t len = std::min<size_t>(t.size() - p, 1 + splitmix(rng) % 8);
                t.erase(t.begin() + p, t.begin() + p + len);
                break;
            }
            case 6:
            {
                size_t len = std::min<size_t>(t.size() - p, 1 + splitmix(rng) % 8);
                std::vector<uint64_t> c(t.begin() + p, t.begin() + p + len);
                unsigned rep = splitmix(rng) % 8 ? 1 : 1 + splitmix(rng) % 20;
                while (rep--)
                    t.insert(t.begin() + p, c.begin(), c.end());
                break;
            }
            case 7:
                t[p] = t[splitmix(rng) % t.size()];
                break;
            default:
            {
                auto& o = corpus[splitmix(rng) % k];
                if (!o.empty())
                {
                    size_t q = splitmix(rng) % o.size();
                    t.resize(p);
                    t.insert(t.end(), o.begin() + q, o.end());
                }
            }
            }
        }
        if (t.size() > 4096)
            t.resize(4096);
        if (splitmix(rng) % 4 == 0 && !t.empty())
            t.resize(splitmix(rng) % t.size());
        return t;
    }

    // Runs a worker's cases [0, count). Stops after case `upto` if given.
    static void worker_loop(const Property& prop, const Options& opt,
                            unsigned w, Shared* sh, uint64_t count,
                            uint64_t sweep_limit, double deadline, FILE* samples)
    {
        std::unordered_set<uint64_t> hashes;
        Ctx ctx;
        ctx.thorough = opt.thorough;
        std::map<const char*, size_t> class_ids;
        auto add_classes = [&]()
        {
            for (auto c : ctx.classes)
            {
                auto it = class_ids.find(c);
                if (it == class_ids.end())
                {
                    if (sh->n_classes >= MAX_CLASSES)
                        continue;
                    strncpy(sh->class_names[sh->n_classes], c, 63);
                    it = class_ids.emplace(c, sh->n_classes++).first;
                }
                ++sh->class_counts[it->second];
            }
        };
        auto guarded = [&](auto f) -> bool
        {
            try
            {
                run_guarded(f, ctx);
                return true;
            }
            catch (Failure& e)
            {
                cov::on = false;
                set_msg(sh, e.msg);
                sh->status = FAILED;
                return false;
            }
        };

        sh->in_sweep = 1;
        for (uint64_t i = w; i < std::min(prop.sweep_size, sweep_limit); i += opt.workers)
        {
            sh->sweep_index = i;
            ctx.reset();
            if (!guarded([&]() {prop.sweep_one(i, ctx);}))
                return;
            ++sh->sweeps;
            ++sh->evaluations;
            if (ctx.nontrivial)
                ++sh->kept;
        }
        sh->in_sweep = 0;

        Src src(sh->tape, TAPE_CAPACITY, &sh->tape_length);
        std::vector<std::vector<uint64_t>> corpus;
        uint64_t rng = mix3(opt.seed, w, 77);
        uint64_t next_sample = 3;
        for (uint64_t i = 0; i < count; ++i)
        {
            if (((i & 63) == 0 || prop.heavy) && (now() > deadline || sh->stop))
                break;
            sh->cases = i + 1;
            ctx.reset();
            uint64_t seed = mix3(opt.seed, w + 1000, i);
            bool mutated = !corpus.empty() && !prop.heavy && splitmix(rng) % 100 < 45;
            if (mutated)
                src.start_tape(mutate(rng, corpus),
                               splitmix(rng) % 2 ? Src::Tail::RANDOM : Src::Tail::ZERO,
                               seed);
            else
                src.start_random(seed);
            bool sample = samples && (i == next_sample);
            ctx.describe = sample;
            cov::begin();
            bool ok = guarded([&]() {prop.run(src, ctx);});
            bool interesting = cov::end();
            if (!ok)
                return;
            ++sh->evaluations;
            sh->mutated += mutated;
            if (ctx.nontrivial)
            {
                ++sh->nontrivial;
                if (hashes.size() < 6000000)
                    hashes.insert(ctx.hash);
            }
            add_classes();
            if (interesting && sh->tape_length <= 4096 && !src.was_rare())
            {
                corpus.emplace_back(sh->tape, sh->tape + sh->tape_length);
                if (corpus.size() > 4000)
                    corpus.erase(corpus.begin(), corpus.begin() + 500);
            }
            if (sample)
            {
                if (ctx.nontrivial)
                {
                    fprintf(samples, "%s\n", ctx.text.substr(0, 600).c_str());
                    next_sample = next_sample * 3 + 1;
                }
                else
                    ++next_sample;
            }
        }
        sh->corpus = corpus.size();
        sh->features = cov::features;
        if (samples)
        {
            auto f = fopen((opt.out_dir + "/hashes." + std::to_string(w)).c_str(), "wb");
            if (f)
            {
                std::vector<uint64_t> v(hashes.begin(), hashes.end());
                fwrite(v.data(), 8, v.size(), f);
                fclose(f);
            }
        }
        sh->status = DONE;
    }

    // ------------------------------------------------------------ single runs
    struct Outcome
    {
        bool failed = false;
        bool infra = false;
        std::string msg;
        std::string text;
        std::vector<uint64_t> tape;
    };

    static std::string read_file(const std::string& path, size_t max = 60000)
    {
        std::ifstream f(path, std::ios::binary);
        std::string s(max, '\0');
        f.read(s.data(), std::streamsize(max));
        s.resize(size_t(f.gcount()));
        return s;
    }

    static std::string first_error(const std::string& err)
    {
        std::istringstream in(err);
        std::string line, r;
        int n = 0;
        bool found = false;
        while (std::getline(in, line))
        {
            if (!found && (line.find("ERROR") != std::string::npos
                           || line.find("runtime error") != std::string::npos
                           || line.find("Assertion") != std::string::npos
                           || line.find("terminate called") != std::string::npos
                           || line.find("WARNING: ThreadSanitizer") != std::string::npos))
                found = true;
            if (found)
            {
                r += line + " | ";
                if (++n >= 6)
                    break;
            }
        }
        return r.substr(0, 900);
    }

    static Outcome
    finish_child(pid_t pid, Shared* sh, const std::string& err_path)
    {
        Outcome o;
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        {}
        int status = sh->status;
        if (status == FAILED)
        {
            o.failed = true;
            o.msg = sh->msg;
        }
        else if (status == HUNG)
        {
            o.failed = true;
            o.msg = "does not terminate (CPU time limit of a single case exceeded)";
        }
        else if (status == MEMORY)
        {
            // Heavy properties' cases need much anyway.
            o.failed = !g_heavy;
            o.msg = "memory use grows without bound";
        }
        else if (status != DONE)
        {
            o.failed = true;
            if (WIFSIGNALED(st))
            {
                o.msg = "crashed with signal " + std::to_string(WTERMSIG(st));
                o.infra = WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM;
            }
            else
                o.msg = "aborted with exit code " + std::to_string(WEXITSTATUS(st));
            o.msg += " " + first_error(read_file(err_path));
        }
        o.tape.assign(sh->tape, sh->tape + sh->tape_length);
        return o;
    }

    static void redirect_stderr(const std::string& path)
    {
        int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0)
        {
            dup2(fd, 2);
            close(fd);
        }
    }

    template <typename F>
    static Outcome run_child(const Options& opt, Shared* sh, int limit_quarters, F f)
    {
        sh->status = RUNNING;
        sh->msg[0] = 0;
        sh->tape_length = 0;
        sh->in_sweep = 0;
        std::string err = opt.out_dir + "/stderr.single";
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            redirect_stderr(err);
            arm_watchdog(sh, limit_quarters);
            f();
            fflush(nullptr);
            _exit(0);
        }
        return finish_child(pid, sh, err);
    }

    static Outcome run_tape(const Property& prop, const Options& opt, Shared* sh,
                            const std::vector<uint64_t>& tape, int limit = 40,
                            bool describe = false)
    {
        std::string text_path = opt.out_dir + "/text.single";
        auto o = run_child(opt, sh, limit, [&]()
        {
            Src src(sh->tape, TAPE_CAPACITY, &sh->tape_length);
            src.start_tape(tape, Src::Tail::ZERO, 0);
            Ctx ctx;
            ctx.describe = describe;
            ctx.thorough = opt.thorough;
            if (describe)
                g_text_fd = open(text_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
            auto write_text = [&]()
            {
                if (!describe)
                    return;
                save(ctx.text);
            };
            try
            {
                run_guarded([&]() {prop.run(src, ctx);}, ctx);
                write_text();
                sh->status = DONE;
            }
            catch (Failure& e)
            {
                write_text();
                set_msg(sh, e.msg);
                sh->status = FAILED;
            }
        });
        if (describe)
        {
            o.text = read_file(text_path);
            unlink(text_path.c_str());
        }
        return o;
    }

    static Outcome run_sweep(const Property& prop, const Options& opt, Shared* sh,
                             uint64_t index)
    {
        return run_child(opt, sh, 40, [&]()
        {
            Ctx ctx;
            ctx.describe = true;
            try
            {
                run_guarded([&]() {prop.sweep_one(index, ctx);}, ctx);
                sh->status = DONE;
            }
            catch (Failure& e)
            {
                set_msg(sh, e.msg);
                sh->status = FAILED;
            }
        });
    }

    // Re-runs a worker from its start, up to and including a case.
    static Outcome run_history(const Property& prop, const Options& opt, Shared* sh,
                               unsigned w, uint64_t cases, uint64_t sweeps)
    {
        sh->sweeps = sh->evaluations = sh->nontrivial = 0;
        sh->n_classes = 0;
        sh->stop = 0;
        return run_child(opt, sh, 40, [&]()
        {
            worker_loop(prop, opt, w, sh, cases, sweeps, now() + 1e6, nullptr);
        });
    }

    // ---------------------------------------------------------------- shrinking
    static bool smaller(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
    {
        if (a.size() != b.size())
            return a.size() < b.size();
        return a < b;
    }

    static std::vector<uint64_t>
    shrink(const Property& prop, const Options& opt, Shared* sh,
           std::vector<uint64_t> best, bool slow, unsigned& tried)
    {
        double deadline = now() + (slow ? 40 : 30);
        unsigned budget = slow ? 40 : 6000;
        int limit = slow ? 12 : 40;
        auto attempt = [&](const std::vector<uint64_t>& t) -> bool
        {
            if (tried >= budget || now() > deadline)
                return false;
            ++tried;
            auto o = run_tape(prop, opt, sh, t, limit);
            if (!o.failed || o.infra)
                return false;
            auto r = o.tape;      // normalised tape
            while (!r.empty() && r.back() == 0)
                r.pop_back();
            if (!smaller(r, best))
            {
                if (!smaller(t, best))
                    return false;
                r = t;
            }
            best = r;
            return true;
        };
        while (!best.empty() && best.back() == 0)
            best.pop_back();
        bool progress = true;
        while (progress && tried < budget && now() < deadline)
        {
            progress = false;
            for (size_t len = std::max<size_t>(best.size() / 2, 1); len; len /= 2)
            {
                for (size_t p = 0; p + len <= best.size();)
                {
                    auto t = best;
                    t.erase(t.begin() + ptrdiff_t(p), t.begin() + ptrdiff_t(p + len));
                    if (attempt(t))
                        progress = true;
                    else
                        p += len > 4 ? len / 2 : 1;
                    if (tried >= budget || now() > deadline)
                        break;
                }
            }
            for (size_t len = std::max<size_t>(best.size() / 2, 1); len; len /= 2)
            {
                for (size_t p = 0; p + len <= best.size(); p += len)
                {
                    auto t = best;
                    bool zero = true;
                    for (size_t k = p; k < p + len; ++k)
                    {
                        zero = zero && t[k] == 0;
                        t[k] = 0;
                    }
                    if (!zero && attempt(t))
                        progress = true;
                }
            }
            for (size_t p = 0; p < best.size(); ++p)
            {
                uint64_t lo = 0;
                while (p < best.size() && lo < best[p])
                {
                    auto t = best;
                    t[p] = lo + (best[p] - lo) / 2;
                    if (attempt(t))
                        progress = true;
                    else
                        lo = t[p] + 1;
                    if (tried >= budget || now() > deadline)
                        break;
                }
            }
        }
        return best;
    }

    // ------------------------------------------------------------------- JSON
    static std::string js(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
                (r += '\\') += char(c);
            else if (c < 32 || c >= 127)
            {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            }
            else
                r += char(c);
        }
        return r + "\"";
    }

    static void write_replay(const std::string& path, const Property& prop,
                             const Options& opt, const std::string& kind,
                             const std::vector<uint64_t>& tape,
                             const std::string& extra, const std::string& msg,
                             const std::string& text)
    {
        std::ofstream f(path);
        f << "property " << prop.id << "\nkind " << kind << "\nseed " << opt.seed
          << "\ntier " << (opt.thorough ? "thorough" : "quick")
          << "\nworkers " << opt.workers << "\n" << extra;
        if (kind == "tape")
        {
            f << "tape";
            for (auto v : tape)
                f << ' ' << v;
            f << "\n";
        }
        f << "# case: " << text << "\n# failure: ";
        for (char c : msg)
            f << (c == '\n' ? ' ' : c);
        f << "\n";
    }

    static int do_replay(const Property& prop, Options opt)
    {
        std::ifstream f(opt.replay);
        std::string key, kind;
        std::vector<uint64_t> tape;
        uint64_t index = 0, cases = 0, sweeps = 0;
        unsigned worker = 0;
        std::string line;
        while (std::getline(f, line))
        {
            std::istringstream in(line);
            in >> key;
            std::string v;
            if (key == "kind")
                in >> kind;
            else if (key == "seed")
                in >> opt.seed;
            else if (key == "workers")
                in >> opt.workers;
            else if (key == "tier")
                in >> v, opt.thorough = g_thorough = v == "thorough";
            else if (key == "tape")
            {
                uint64_t x;
                while (in >> x)
                    tape.push_back(x);
            }
            else if (key == "index")
                in >> index;
            else if (key == "worker")
                in >> worker;
            else if (key == "cases")
                in >> cases;
            else if (key == "sweeps")
                in >> sweeps;
        }
        auto sh = map_shared();
        Outcome o;
        if (kind == "tape")
            o = run_tape(prop, opt, sh, tape, 40, true);
        else if (kind == "sweep")
            o = run_sweep(prop, opt, sh, index);
        else
            o = run_history(prop, opt, sh, worker, cases, sweeps);
        if (!o.text.empty())
            printf("case: %s\n", o.text.c_str());
        printf("%s%s\n", o.failed ? "FAILS: " : "passes", o.msg.c_str());
        if (o.failed)
            printf("VIOLATION property=%s replay=%s\n", prop.id.c_str(), opt.replay.c_str());
        return o.failed ? 1 : 0;
    }

    // ------------------------------------------------------------ coordinator
    // -------------------------------------------------------------- servers
    static bool read_all(int fd, void* p, size_t n)
    {
        auto b = (char*)p;
        while (n)
        {
            auto k = read(fd, b, n);
            if (k < 0 && errno == EINTR)
                continue;
            if (k <= 0)
                return false;
            b += k;
            n -= size_t(k);
        }
        return true;
    }
    static bool write_all(int fd, const void* p, size_t n)
    {
        auto b = (const char*)p;
        while (n)
        {
            auto k = write(fd, b, n);
            if (k < 0 && errno == EINTR)
                continue;
            if (k <= 0)
                return false;
            b += k;
            n -= size_t(k);
        }
        return true;
    }

    static int serve_loop(const Property& prop)
    {
        std::vector<uint64_t> tape, space(1 << 20);
        while (true)
        {
            uint64_t n;
            if (!read_all(0, &n, 8))
                return 0;
            tape.resize(n);
            if (!read_all(0, tape.data(), n * 8))
                return 0;
            itimerval t{{0, 0}, {20, 0}};
            setitimer(ITIMER_VIRTUAL, &t, nullptr);
            size_t length = 0;
            Src src(space.data(), space.size(), &length);
            src.start_tape(tape, Src::Tail::ZERO, 0);
            auto r = prop.serve(src);
            n = r.size();
            if (!write_all(1, &n, 8) || !write_all(1, r.data(), n))
                return 0;
        }
    }

    Servers::Servers(const char* programs)
    {
        std::istringstream in(programs ? programs : "");
        std::string s;
        while (std::getline(in, s, ':'))
            m_servers.push_back({s.substr(0, s.find('=')), s.substr(s.find('=') + 1)});
    }

    void Servers::start(Server& s)
    {
        int a[2], b[2];
        if (pipe2(a, O_CLOEXEC) != 0 || pipe2(b, O_CLOEXEC) != 0)
            exit(3);
        fflush(nullptr);
        s.pid = fork();
        if (s.pid < 0)
            exit(3);
        if (s.pid == 0)
        {
            signal(SIGVTALRM, SIG_DFL);
            sigset_t none;
            sigemptyset(&none);
            sigprocmask(SIG_SETMASK, &none, nullptr);
            dup2(a[0], 0);
            dup2(b[1], 1);
            execl(s.path.c_str(), s.path.c_str(), "--serve", nullptr);
            _exit(3);
        }
        close(a[0]);
        close(b[1]);
        s.to = a[1];
        s.from = b[0];
    }

    std::vector<std::string> Servers::ask(const std::vector<uint64_t>& tape)
    {
        signal(SIGPIPE, SIG_IGN);
        if (m_owner != getpid())
        {
            // Those of the parent process are not for this one.
            for (auto& s : m_servers)
            {
                close(s.to);
                close(s.from);
                start(s);
            }
            m_owner = getpid();
        }
        uint64_t n = tape.size();
        for (auto& s : m_servers)
        {
            if (write_all(s.to, &n, 8))
                write_all(s.to, tape.data(), n * 8);
        }
        std::vector<std::string> answers;
        std::string failure;
        for (auto& s : m_servers)
        {
            std::string r;
            bool ok = read_all(s.from, &n, 8);
            if (ok)
            {
                r.resize(n);
                ok = read_all(s.from, r.data(), n);
            }
            if (!ok)
            {
                close(s.to);
                close(s.from);
                int st = 0;
                while (waitpid(s.pid, &st, 0) < 0 && errno == EINTR)
                {}
                if ((WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || (WIFEXITED(st) && WEXITSTATUS(st) == 3))
                    raise(SIGKILL);              // the machine's doing
                failure = "built as " + s.name + " the calls end with "
                          + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                                             : "exit code " + std::to_string(WEXITSTATUS(st)));
                start(s);
            }
            answers.push_back(r);
        }
        if (!failure.empty())
            fail(failure);
        return answers;
    }

    int engine_main(int argc, char** argv)
    {
        if (argc == 2 && std::string(argv[1]) == "--serve")
            return serve_loop(make_property());
        Options opt;
        for (int i = 1; i + 1 < argc; i += 2)
        {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--out") opt.out_dir = v;
            else if (a == "--seed") opt.seed = strtoull(v.c_str(), nullptr, 10);
            else if (a == "--tier") opt.thorough = v == "thorough";
            else if (a == "--workers") opt.workers = unsigned(atoi(v.c_str()));
            else if (a == "--seconds") opt.max_seconds = atof(v.c_str());
            else if (a == "--scale") opt.scale = atof(v.c_str());
            else if (a == "--evidence") opt.evidence = v;
            else if (a == "--replays") opt.replay_dir = v;
            else if (a == "--replay") opt.replay = v;
            else if (a == "--dict") opt.dict_file = v;
            else {fprintf(stderr, "bad option %s\n", argv[i]); return 3;}
        }
        g_thorough = opt.thorough;
        if (!opt.dict_file.empty())
        {
            std::ifstream f(opt.dict_file);
            uint64_t v;
            while (f >> v)
                cov::add_const(v);
        }
        Property prop = make_property();
        g_heavy = prop.heavy;
        if (!opt.replay.empty())
            return do_replay(prop, opt);

        double start = now();
        double deadline = start + opt.max_seconds;
        uint64_t total = uint64_t(double(opt.thorough ? prop.thorough_cases : prop.quick_cases) * opt.scale);
        uint64_t per_worker = total / opt.workers + 1;
        std::vector<Shared*> sh;
        std::vector<pid_t> pids;
        for (unsigned w = 0; w < opt.workers; ++w)
            sh.push_back(map_shared());
        fflush(nullptr);
        for (unsigned w = 0; w < opt.workers; ++w)
        {
            pid_t pid = fork();
            if (pid == 0)
            {
                redirect_stderr(opt.out_dir + "/stderr." + std::to_string(w));
                auto samples = fopen((opt.out_dir + "/samples." + std::to_string(w)).c_str(), "w");
                arm_watchdog(sh[w], 40);
                worker_loop(prop, opt, w, sh[w], per_worker, ~0ull, deadline, samples);
                fflush(nullptr);
                _exit(0);
            }
            pids.push_back(pid);
        }

        // Wait; a worker without progress for a long (wall) time has hung.
        std::vector<Outcome> outcome(opt.workers);
        std::vector<bool> ended(opt.workers, false);
        std::vector<uint64_t> last(opt.workers, ~0ull);
        std::vector<double> last_time(opt.workers, now());
        unsigned running = opt.workers;
        int failed_worker = -1;
        while (running)
        {
            for (unsigned w = 0; w < opt.workers; ++w)
            {
                if (ended[w])
                    continue;
                siginfo_t si{};
                if (waitid(P_PID, id_t(pids[w]), &si, WEXITED | WNOHANG | WNOWAIT) == 0
                    && si.si_pid == pids[w])
                {
                    outcome[w] = finish_child(pids[w], sh[w],
                                              opt.out_dir + "/stderr." + std::to_string(w));
                    ended[w] = true;
                    --running;
                    if (sh[w]->status == HUNG && !sh[w]->in_sweep && !g_heavy)
                    {
                        // Only slow? Then the other workers carry on.
                        auto single = map_shared();
                        auto o = run_tape(prop, opt, single, outcome[w].tape, 120);
                        munmap(single, sizeof(Shared));
                        if (!o.failed)
                        {
                            printf("%s: a case took long: %zu choices\n", prop.id.c_str(),
                                   outcome[w].tape.size());
                            outcome[w] = o;
                        }
                        for (auto& t : last_time)
                            t = now();
                    }
                    if (outcome[w].failed && failed_worker < 0)
                    {
                        failed_worker = int(w);
                        for (auto s : sh)
                            s->stop = 1;
                    }
                    continue;
                }
                uint64_t key = sh[w]->cases * 0x10001ull + sh[w]->sweep_index;
                if (key != last[w])
                {
                    last[w] = key;
                    last_time[w] = now();
                }
                else if (now() - last_time[w] > (g_heavy ? 3000 : 150))
                {
                    sh[w]->status = HUNG;
                    kill(pids[w], SIGKILL);
                }
            }
            if (failed_worker >= 0 && running)
            {
                // Sweeps do not look at `stop`.
                usleep(200000);
                for (unsigned w = 0; w < opt.workers; ++w)
                    if (!ended[w])
                    {
                        sh[w]->status = DONE;
                        kill(pids[w], SIGKILL);
                    }
            }
            usleep(2000);
        }

        // Merge.
        uint64_t evaluations = 0, sweeps = 0, mutated = 0, corpus = 0, features = 0, sweep_kept = 0;
        std::map<std::string, uint64_t> classes;
        std::vector<uint64_t> hashes;
        std::vector<std::string> samples;
        for (unsigned w = 0; w < opt.workers; ++w)
        {
            auto s = sh[w];
            evaluations += s->evaluations;
            sweeps += s->sweeps;
            mutated += s->mutated;
            corpus += s->corpus;
            features = std::max(features, s->features);
            sweep_kept += s->kept;
            for (size_t i = 0; i < s->n_classes; ++i)
                classes[s->class_names[i]] += s->class_counts[i];
            std::ifstream f(opt.out_dir + "/hashes." + std::to_string(w), std::ios::binary);
            std::string all((std::istreambuf_iterator<char>(f)), {});
            auto n = hashes.size();
            hashes.resize(n + all.size() / 8);
            memcpy(hashes.data() + n, all.data(), all.size() / 8 * 8);
            std::ifstream sf(opt.out_dir + "/samples." + std::to_string(w));
            std::string line;
            for (int k = 0; k < 3 && std::getline(sf, line); ++k)
                samples.push_back(line);
        }
        std::sort(hashes.begin(), hashes.end());
        hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());

        bool violation = false, infra = false;
        if (failed_worker >= 0)
        {
            auto w = unsigned(failed_worker);
            auto first = outcome[w];
            fprintf(stderr, "worker %u: %s\n", w, first.msg.c_str());
            bool slow = sh[w]->status == HUNG || sh[w]->status == MEMORY;
            mkdir(opt.replay_dir.c_str(), 0755);
            std::string path = opt.replay_dir + "/" + prop.id + "-"
                               + (opt.thorough ? "thorough" : "quick") + "-"
                               + std::to_string(opt.seed) + ".replay";
            auto single = map_shared();
            std::string kind, msg = first.msg, text, extra;
            std::vector<uint64_t> tape = first.tape;
            if (sh[w]->in_sweep)
            {
                uint64_t index = sh[w]->sweep_index;
                auto o = run_sweep(prop, opt, single, index);
                if (o.failed && !o.infra)
                {
                    kind = "sweep";
                    msg = o.msg;
                    extra = "index " + std::to_string(index) + "\n";
                    text = "sweep index " + std::to_string(index);
                }
            }
            else
            {
                // Heavy cases which hang take too long to be run again and again.
                bool once = g_heavy && slow;
                auto o = run_tape(prop, opt, single, tape, 40, once);
                if (once && o.failed && !o.infra)
                {
                    kind = "tape";
                    msg = o.msg;
                    text = o.text;
                }
                else if (o.failed && !o.infra)
                {
                    unsigned tried = 0;
                    auto best = shrink(prop, opt, single, tape, slow, tried);
                    bool stable = true;
                    for (int k = 0; k < (g_heavy ? 1 : 3) && stable; ++k)
                        stable = run_tape(prop, opt, single, best).failed;
                    if (!stable)
                        best = tape;
                    o = run_tape(prop, opt, single, best, 40, true);
                    kind = "tape";
                    tape = best;
                    msg = o.failed ? o.msg : first.msg;
                    text = o.text;
                    fprintf(stderr, "shrunk to %zu choices in %u runs\n", best.size(), tried);
                }
            }
            if (kind.empty())
            {
                uint64_t n = sh[w]->cases, s = sh[w]->in_sweep ? sh[w]->sweep_index + 1 : ~0ull;
                auto o = g_heavy ? Outcome() : run_history(prop, opt, single, w, n, s);
                extra = "worker " + std::to_string(w) + "\ncases " + std::to_string(n)
                        + "\nsweeps " + std::to_string(s) + "\n";
                if (o.failed && !o.infra)
                {
                    kind = "history";
                    msg = "only after the preceding cases: " + o.msg;
                }
                else if (!first.infra && !slow)
                {
                    kind = "history";
                    msg = "seen once, not reproduced on replay: " + first.msg;
                }
                else if (slow)
                {
                    kind = "none";
                    printf("%s: a case took very long, but not when repeated\n", prop.id.c_str());
                }
                else
                    infra = true;
            }
            if (!infra && kind != "none")
            {
                violation = true;
                write_replay(path, prop, opt, kind, tape, extra, msg, text);
                printf("case: %s\nfailure: %s\n", text.c_str(), msg.c_str());
                printf("VIOLATION property=%s replay=%s\n", prop.id.c_str(), path.c_str());
            }
        }

        double wall = now() - start;
        if (!opt.evidence.empty())
        {
            std::ofstream e(opt.evidence);
            e << "{\"property\": " << js(prop.id) << ", \"tier\": \""
              << (opt.thorough ? "thorough" : "quick") << "\", \"seed\": " << opt.seed
              << ", \"level\": " << js(opt.level) << ",\n \"coverage\": {\n"
              << "  \"evaluations\": " << evaluations
              << ",\n  \"distinct_nontrivial\": " << hashes.size() + sweep_kept
              << ",\n  \"rule\": " << js(prop.rule)
              << ",\n  \"enumerated\": " << sweeps
              << ",\n  \"enumeration\": " << js(prop.sweep_text)
              << ",\n  \"generated\": " << evaluations - sweeps
              << ",\n  \"generated_by_mutation\": " << mutated
              << ",\n  \"coverage_features\": " << features
              << ",\n  \"corpus\": " << corpus << ",\n  \"classes\": {";
            bool first = true;
            for (auto& [k, v] : classes)
            {
                e << (first ? "" : ", ") << js(k) << ": " << v;
                first = false;
            }
            e << "},\n  \"samples\": [";
            first = true;
            for (auto& s : samples)
            {
                e << (first ? "\n   " : ",\n   ") << js(s);
                first = false;
            }
            e << "]},\n \"wall_s\": " << wall << ", \"violations\": " << (violation ? 1 : 0) << "}\n";
        }
        printf("%s: %llu cases (%llu enumerated), %zu distinct non-trivial, %.1f s\n",
               prop.id.c_str(), (unsigned long long)evaluations, (unsigned long long)sweeps,
               hashes.size() + size_t(sweep_kept), wall);
        for (auto& [k, v] : classes)
            fprintf(stderr, "  %-40s %llu\n", k.c_str(), (unsigned long long)v);
        return violation ? 1 : infra ? 2 : 0;
    }
}

#ifndef PBT_NO_MAIN
int main(int argc, char** argv)
{
    return pbt::engine_main(argc, argv);
}
#endif
