// C33: the same results however the library is compiled.
#include "ops.hpp"

namespace
{
    struct Case
    {
        std::vector<ops::Call> calls;
        std::vector<api::Placement> placements;
        bool high = false, odd = false;
    };

    Case gen_case(Src& src, Ctx& ctx)
    {
        Case r;
        auto pool = src.flag(1, 2) ? ops::make_short_pool(src, ctx) : ops::make_pool(src, ctx, src.choose(1, 3));
        for (auto& s : pool.strings)
            r.high |= std::any_of(s.begin(), s.end(), [](char c) {return (unsigned char)c >= 0x80;});
        ops::Maker maker(src, pool, ctx.describe);
        auto n = src.choose(1, 12);
        while (n--)
        {
            r.calls.push_back(maker.make());
            r.odd |= r.calls.back().odd;
            r.placements.push_back(ops::gen_placement(src));
        }
        return r;
    }

    std::vector<string> run(const Case& c)
    {
        std::vector<string> r;
        for (size_t i = 0; i < c.calls.size(); ++i)
        {
            api::placement = c.placements[i];
            try
            {
                r.push_back(c.calls[i].run());
            }
            catch (pbt::Failure& f)
            {
                r.push_back("FAILURE " + f.msg);
            }
            api::placement = {};
        }
        return r;
    }

    string pack(const std::vector<string>& v)
    {
        string r;
        for (auto& s : v)
        {
            uint64_t n = s.size();
            r.append((const char*)&n, 8);
            r += s;
        }
        return r;
    }
    std::vector<string> unpack(const string& s)
    {
        std::vector<string> r;
        for (size_t p = 0; p + 8 <= s.size();)
        {
            uint64_t n;
            memcpy(&n, s.data() + p, 8);
            r.push_back(s.substr(p + 8, n));
            p += 8 + n;
        }
        return r;
    }
}

Property pbt::make_property()
{
    load_model();
    Property p;
    p.id = "C33";
    static Servers servers(getenv("PBT_SERVERS"));
    string names;
    for (size_t i = 0; i < servers.size(); ++i)
        names += (i ? ", " : "") + servers.name(i);
    p.rule = "A case is a list of calls of any of the public functions on a small pool of byte strings (as for C24 and "
             "C27), made by this program (gcc -O1) and by programs in which the library, with the inline functions of "
             "its headers, is built differently: " + names + ". Every result must be the same, and no program may "
             "crash. Non-trivial: a byte from 0x80 in the pool, or an extreme index or code point value.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto c = gen_case(src, ctx);
        for (auto& call : c.calls)
        {
            ctx.cls(ops::intern(call.name));
            ctx.mix(call.name.data(), call.name.size());
        }
        ops::note_calls(ctx, c.calls);
        ctx.nontrivial = c.high || c.odd;
        auto mine = run(c);
        for (auto& r : mine)
        {
            if (r.starts_with("FAILURE "))
                fail(r.substr(8));
            ctx.mix(r.data(), r.size());
        }
        auto answers = servers.ask(src.taken());
        for (size_t k = 0; k < answers.size(); ++k)
        {
            auto theirs = unpack(answers[k]);
            if (theirs.size() != mine.size())
                fail("a program gave too few results");
            for (size_t i = 0; i < mine.size(); ++i)
                if (mine[i] != theirs[i])
                    fail(c.calls[i].name + " gives " + theirs[i].substr(0, 300) + " built as " + servers.name(k)
                         + ", but " + mine[i].substr(0, 300) + " built with gcc -O1");
        }
    };
    p.serve = [](Src& src)
    {
        Ctx ctx;
        return pack(run(gen_case(src, ctx)));
    };
    p.quick_cases = 700000;
    p.thorough_cases = 40000000;
    return p;
}
