// C32: running out of memory, and memory kept.
#include "ops.hpp"
#include <new>

// --------------------------------------------------------- the allocations
namespace
{
    struct Faults
    {
        uint64_t count = 0;                 // allocations made by library code
        uint64_t fail_at = 0;               // the one which fails, from 1
        bool onwards = false;               // so do all which follow
        int64_t live = 0;                   // allocations not released, anyone's
    } faults;

    bool allowed()
    {
        if (!api::inside)
            return true;
        auto n = ++faults.count;
        if (!faults.fail_at || n < faults.fail_at || (n > faults.fail_at && !faults.onwards))
            return true;
        api::starved = true;
        return false;
    }
}

extern "C"
{
    void* __real_malloc(size_t);
    void* __real_calloc(size_t, size_t);
    void* __real_realloc(void*, size_t);
    void __real_free(void*);
    void* __wrap_malloc(size_t n)
    {
        auto p = allowed() ? __real_malloc(n) : nullptr;
        faults.live += p != nullptr;
        return p;
    }
    void* __wrap_calloc(size_t n, size_t m)
    {
        auto p = allowed() ? __real_calloc(n, m) : nullptr;
        faults.live += p != nullptr;
        return p;
    }
    void* __wrap_realloc(void* old, size_t n)
    {
        auto p = allowed() ? __real_realloc(old, n) : nullptr;
        faults.live += !old && p;
        return p;
    }
    void __wrap_free(void* p)
    {
        faults.live -= p != nullptr;
        __real_free(p);
    }
}

static void* get(size_t n, size_t align = 0)
{
    if (!allowed())
        return nullptr;
    void* p = nullptr;
    if (!align)
        p = __real_malloc(n ? n : 1);
    else if (posix_memalign(&p, align, n) != 0)
        p = nullptr;
    faults.live += p != nullptr;
    return p;
}
static void* get_or_throw(size_t n, size_t align = 0)
{
    if (auto p = get(n, align))
        return p;
    throw std::bad_alloc();
}
static void put(void* p)
{
    faults.live -= p != nullptr;
    __real_free(p);
}
using Al = std::align_val_t;
using Nt = const std::nothrow_t&;
void* operator new(size_t n) {return get_or_throw(n);}
void* operator new[](size_t n) {return get_or_throw(n);}
void* operator new(size_t n, Al a) {return get_or_throw(n, size_t(a));}
void* operator new[](size_t n, Al a) {return get_or_throw(n, size_t(a));}
void* operator new(size_t n, Nt) noexcept {return get(n);}
void* operator new[](size_t n, Nt) noexcept {return get(n);}
void* operator new(size_t n, Al a, Nt) noexcept {return get(n, size_t(a));}
void* operator new[](size_t n, Al a, Nt) noexcept {return get(n, size_t(a));}
void operator delete(void* p) noexcept {put(p);}
void operator delete[](void* p) noexcept {put(p);}
void operator delete(void* p, size_t) noexcept {put(p);}
void operator delete[](void* p, size_t) noexcept {put(p);}
void operator delete(void* p, Al) noexcept {put(p);}
void operator delete[](void* p, Al) noexcept {put(p);}
void operator delete(void* p, size_t, Al) noexcept {put(p);}
void operator delete[](void* p, size_t, Al) noexcept {put(p);}
void operator delete(void* p, Nt) noexcept {put(p);}
void operator delete[](void* p, Nt) noexcept {put(p);}

// -------------------------------------------------------------------- C32

// The result is as expected, and nothing stays allocated beyond it.
static int64_t run_once(const ops::Call& call, const string& expected)
{
    auto before = faults.live;
    {
        auto r = call.run();
        if (r != expected)
            fail(call.name + ": a later call with the same arguments gives " + r.substr(0, 300) + ", the first gave "
                 + expected.substr(0, 300));
    }
    return faults.live - before;
}

static void check(const ops::Call& call, Src& src, Ctx& ctx)
{
    // Things may be prepared by the first call, and kept.
    auto expected = call.run();
    faults.count = 0;
    run_once(call, expected);
    auto n = faults.count;
    int64_t kept = 1;
    for (int i = 0; i < 4 && kept > 0; ++i)
        kept = run_once(call, expected);
    if (kept > 0)
        fail(call.name + " keeps " + std::to_string(kept) + " allocations whenever it is called");
    if (!n)
        return;

    std::vector<uint64_t> at;
    if (n <= 12)
        for (uint64_t i = 1; i <= n; ++i)
            at.push_back(i);
    else
        for (auto i : {uint64_t(1), src.choose(2, n), src.choose(2, n), n / 2, n - 1, n})
            at.push_back(i);
    bool fired = false;
    for (auto k : at)
        for (int onwards = 0; onwards < 2; ++onwards)
        {
            faults.count = 0;
            faults.fail_at = k;
            faults.onwards = onwards;
            api::starved = false;
            auto before = faults.live;
            string what, wrong;
            {
                bool out = false;
                try
                {
                    auto r = call.run();
                    faults.fail_at = 0;
                    if (r != expected)
                        wrong = r;
                }
                catch (api::OutOfMemory&)
                {
                    out = true;
                }
                catch (pbt::Failure& f)
                {
                    faults.fail_at = 0;
                    what = f.msg;
                }
                faults.fail_at = 0;
                fired |= out;
            }
            string when = " when allocation " + std::to_string(k) + " of " + std::to_string(n)
                          + (onwards ? " and all after it fail" : " fails");
            if (!what.empty())
                fail(what + when);
            if (!wrong.empty())
                fail(call.name + " gives " + wrong.substr(0, 300) + when + ", but " + expected.substr(0, 300)
                     + " otherwise");
            // wrong and what are empty now, and have nothing allocated.
            auto after = faults.live - before - (when.capacity() > 15);
            if (after > 0)
                fail(call.name + " keeps " + std::to_string(after) + " allocations" + when);
        }
    api::starved = false;
    run_once(call, expected);
    ctx.nontrivial |= fired;
}

Property pbt::make_property()
{
    load_model();
    Property p;
    p.id = "C32";
    p.rule = "A case is one to three calls of any of the public functions on a small pool of byte strings. Each is made "
             "repeatedly: freely, then with its first, second, ... allocation failing (all of them if at most twelve, "
             "otherwise six), alone and with all that follow. A failing call must end in std::bad_alloc or give the "
             "result it gives otherwise, leave strings changed in place as they were, and release all it allocated; "
             "the calls which return must not keep memory either; and the call made freely afterwards must give the same "
             "result. Runs with AddressSanitizer. Non-trivial: some call ended in std::bad_alloc.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto pool = src.flag(1, 2) ? ops::make_short_pool(src, ctx) : ops::make_pool(src, ctx, src.choose(1, 3), 3000);
        ops::Maker maker(src, pool, ctx.describe);
        std::vector<ops::Call> calls;
        std::vector<api::Placement> placements;
        auto n = src.choose(1, 3);
        while (n--)
        {
            calls.push_back(maker.make());
            placements.push_back(ops::gen_placement(src));
            placements.back().spare = unsigned(src.choose(0, 5));
            ctx.cls(ops::intern(calls.back().name));
            ctx.mix(calls.back().name.data(), calls.back().name.size());
        }
        ops::note_calls(ctx, calls);
        for (size_t i = 0; i < calls.size(); ++i)
        {
            api::placement = placements[i];
            check(calls[i], src, ctx);
            api::placement = {};
        }
    };
    p.quick_cases = 600000;
    p.thorough_cases = 40000000;
    return p;
}
