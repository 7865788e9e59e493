// Property-based testing engine: choice tapes, worker processes, coverage
// guidance, shrinking, replay and evidence. Knows nothing about Ystring.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

namespace pbt
{
    struct Failure
    {
        std::string msg;
    };

    [[noreturn]] void fail(const std::string& msg);

    inline void expect(bool ok, const char* msg)
    {
        if (!ok)
            fail(msg);
    }

    // Random source of a case. Every decision is recorded as a number on a
    // tape; replaying (an edited copy of) the tape reproduces the case.
    // On an exhausted tape every choice is its smallest value.
    class Src
    {
    public:
        enum class Tail {ZERO, RANDOM};

        Src(uint64_t* tape, size_t capacity, size_t* length);

        void start_random(uint64_t seed);
        void start_tape(const std::vector<uint64_t>& t, Tail tail,
                        uint64_t seed);

        // A number in [lo, hi], uniform.
        uint64_t choose(uint64_t lo, uint64_t hi);
        // A number in [lo, hi]; gen() proposes it (clamped) when random.
        uint64_t choose_by(uint64_t lo, uint64_t hi,
                           const std::function<uint64_t()>& gen);
        // True with probability num/den; false is the "simple" value.
        bool flag(unsigned num, unsigned den);
        // 0, or rarely gen()'s value. Isn't changed by mutations other than to
        // 0, and such cases aren't mutated further.
        uint64_t rare(const std::function<uint64_t()>& gen);
        bool was_rare() const {return m_rare;}
        // Index chosen according to weights.
        size_t weighted(std::initializer_list<unsigned> weights);

        template <typename C>
        auto& pick(C& c)
        {
            return c[choose(0, c.size() - 1)];
        }

        // The choices made so far.
        std::vector<uint64_t> taken() const {return {m_tape, m_tape + *m_length};}

        // Unrecorded randomness, only for use within choose_by's gen.
        uint64_t raw();
        uint64_t raw(uint64_t n) {return n ? raw() % n : 0;}

    private:
        bool next(uint64_t& v);
        void record(uint64_t v);

        uint64_t* m_tape;
        size_t m_capacity;
        size_t* m_length;
        uint64_t m_state = 0;
        std::vector<uint64_t> m_input;
        size_t m_pos = 0;
        bool m_random = true;
        bool m_rare = false;
        Tail m_tail = Tail::RANDOM;
    };

    // Describes the running case.
    class Ctx
    {
    public:
        bool describe = false;
        bool nontrivial = false;
        uint64_t hash = 1469598103934665603ull;
        std::string text;
        bool thorough = false;

        void mix(const void* p, size_t n);
        void mix_u64(uint64_t v) {mix(&v, sizeof v);}
        void note(const char* name, std::string_view bytes);
        void note(const char* name, const std::u32string& s);
        void note_n(const char* name, int64_t v);
        void note_cp(const char* name, char32_t v);
        // Counts the case in a named class (for the evidence).
        void cls(const char* name);
        std::vector<const char*> classes;
        void reset();
    private:
        void add(const char* name, const std::string& value);
    };

    std::string quote(std::string_view bytes);
    std::string quote(const std::u32string& s);
    std::string hex(uint64_t v);

    struct Property
    {
        std::string id;
        std::string rule;            // how made, and what is non-trivial
        std::function<void(Src&, Ctx&)> run;
        // Optional enumeration: one(i) for every i in [0, sweep_size).
        uint64_t sweep_size = 0;
        std::function<void(uint64_t, Ctx&)> sweep_one;
        std::string sweep_text;
        uint64_t quick_cases = 400000;
        uint64_t thorough_cases = 20000000;
        bool forks = false;          // cases fork: slower, no extra workers
        bool heavy = false;          // cases may take long, and much memory
        // For programs started with --serve: answers a case's choices.
        std::function<std::string(Src&)> serve;
    };

    Property make_property();        // supplied by the property's file

    // Dictionary of constants (from the sources and from comparisons seen).
    const std::vector<uint64_t>& dictionary();
    bool is_thorough();
    // For heavy properties: the CPU time the rest of this case may take
    // (0: the usual limit).
    void time_limit(double seconds);

    // Work done by the instrumented code.
    struct Meter
    {
        uint64_t blocks = 0;
        uintptr_t stack = UINTPTR_MAX;      // lowest frame seen
    };
    extern Meter meter;

    // Programs which answer (see Property::serve), in processes of their own.
    class Servers
    {
    public:
        // The programs: name=path, separated by colons.
        explicit Servers(const char* programs);
        size_t size() const {return m_servers.size();}
        const std::string& name(size_t i) const {return m_servers[i].name;}
        // Asks all, and fails if one does not answer.
        std::vector<std::string> ask(const std::vector<uint64_t>& tape);
    private:
        struct Server
        {
            std::string name, path;
            int pid = 0, to = -1, from = -1;
        };
        void start(Server& s);
        std::vector<Server> m_servers;
        int m_owner = 0;
    };

    int engine_main(int argc, char** argv);
}
