// C05 classes, C06 case conversion, C07 decomposition, C08 composition
#include "common.hpp"

using namespace model;

// The categories named by each predicate, in the order of api::predicate.
static bool expected_predicate(int i, char32_t c)
{
    auto g = model::gc(c);
    bool letter = g <= Lo, mark = g >= Mn && g <= Me, number = g >= Nd && g <= No;
    bool punct = g >= Pc && g <= Po, symbol = g >= Sm && g <= So;
    bool sep = g >= Zs && g <= Zp;
    bool nl = model::is_newline(c);
    switch (i)
    {
    case 0: return letter || number;
    case 1: case 18: return g == Lu || g == Ll || g == Lt;
    case 2: return g == Cc;
    case 3: return g == Cf;
    case 4: return letter || mark || number || punct || symbol;
    case 5: return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    case 6: return letter;
    case 7: return g == Ll;
    case 8: return mark;
    case 9: return nl;
    case 10: return number;
    case 11: return punct;
    case 12: return sep;
    case 13: return g == Cs;
    case 14: return symbol;
    case 15: return g == Lu;
    case 16: return letter || mark || number || punct || symbol || sep;
    default: return nl || sep || c == 9;
    }
}

static void check_class(char32_t c)
{
    auto cls = api::get_char_class(c);
    auto e = 1u << model::gc(c);
    if (cls != e)
        fail("get_char_class of U+" + pbt::hex(c) + ": got " + pbt::hex(cls) + ", expected " + pbt::hex(e));
    for (int i = 0; i < api::N_PREDICATES; ++i)
        if (api::predicate(i, c) != expected_predicate(i, c))
            fail(string(api::PREDICATE_NAMES[i]) + " of U+" + pbt::hex(c) + " is wrong");
}

static Property c05()
{
    Property p;
    p.id = "C05";
    p.rule = "A case is one char32_t value, mostly beyond U+10FFFF or at an edge of a category (every code point is "
             "enumerated besides). The class is compared with the General_Category of the committed Unicode 16.0 "
             "data as parsed by tools/mkdata.py, the predicates with the categories they name. Non-trivial: the "
             "value is not assigned, or is next to a code point of another category.";
    p.run = [](Src& src, Ctx& ctx)
    {
        char32_t c = src.flag(1, 2) ? gen::big(src) : gen::cp(src, gen::EDGES);
        ctx.note_cp("c", c);
        ctx.cls(c > model::MAX ? "beyond U+10FFFF" : model::gc(c) == Cn ? "unassigned" : "assigned");
        ctx.nontrivial = model::gc(c) == Cn || model::gc(c) != model::gc(c + 1)
                         || model::gc(c) != model::gc(c - 1);
        check_class(c);
        // Values which differ by a bit only.
        for (int k = 0; k < 4; ++k)
            check_class(c ^ (1u << src.choose(0, 31)));
    };
    p.sweep_size = 0x110000 + 0x1000;
    p.sweep_text = "every code point U+0000 to U+10FFFF and 4096 values spread over the rest up to FFFFFFFF";
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        auto c = i < 0x110000 ? char32_t(i) : char32_t(0x110000 + (i - 0x110000) * 0xFFEFFull);
        ctx.nontrivial = model::gc(c) == Cn || model::gc(c) != model::gc(c + 1)
                         || model::gc(c) != model::gc(c - 1);
        check_class(c);
    };
    p.quick_cases = 3000000;
    p.thorough_cases = 200000000;
    return p;
}

// A string, valid or (seldom) not, and what it decodes to.
struct Input
{
    string s;
    std::optional<Text> t;
};

static bool has_bad(const Text& t)
{
    for (auto c : t)
        if (c > model::MAX)
            return true;
    return false;
}

static Input gen_input(Src& src, Ctx& ctx, unsigned focus)
{
    Input r;
    switch (src.weighted({14, 3, 2}))
    {
    case 0:
        r.t = gen::text(src, focus);
        r.s = model::enc(*r.t);
        break;
    case 1:
    {
        // Valid text with one thing broken.
        r.t = gen::text(src, focus, 5);
        auto o = model::offsets(*r.t);
        r.s = model::enc(*r.t);
        r.s.insert(boundary(src, o), gen::broken(src));
        r.t = model::decode(r.s);
        break;
    }
    default:
        r.s = gen::bytes(src, focus);
        r.t = model::decode(r.s);
    }
    ctx.note("s", r.s);
    ctx.cls(!r.t ? "invalid UTF-8" : r.s.empty() ? "empty" : r.s.size() == r.t->size() ? "ASCII" : "valid, multi-byte");
    return r;
}

// Overlong input is compared by what it means, as its copies may be normal.
static void gives_text(const char* what, const Res<string>& r, const Input& in, const Text& e)
{
    if (!in.t)
        throws((string(what) + " of invalid UTF-8").c_str(), r);
    else if (has_bad(*in.t))
        return;
    else if (model::enc(*in.t) == in.s)
        gives(what, r, model::enc(e));
    else if (r.threw || model::decode(r.v) != std::optional(e))
        fail(string(what) + ": got " + show(r) + ", expected " + show(e));
}

static void check_case_of(char32_t c)
{
    if (api::to_upper(c) != model::upper(c))
        fail("to_upper of U+" + pbt::hex(c) + " is U+" + pbt::hex(api::to_upper(c)));
    if (api::to_lower(c) != model::lower(c))
        fail("to_lower of U+" + pbt::hex(c) + " is U+" + pbt::hex(api::to_lower(c)));
    if (api::to_title(c) != model::title(c))
        fail("to_title of U+" + pbt::hex(c) + " is U+" + pbt::hex(api::to_title(c)));
}

static Property c06()
{
    Property p;
    p.id = "C06";
    p.rule = "A case is a string rich in cased letters, letters whose cases differ in encoded length, marks and "
             "non-letters, or an invalid one; the three conversions are "
             "compared with a model on code point lists. Single values beyond U+10FFFF are included, every code point "
             "is enumerated. Non-trivial: some conversion changes the string, or it is invalid UTF-8.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto in = gen_input(src, ctx, src.flag(1, 3) ? gen::CASE : gen::CASE | gen::LETTERS | gen::ASCII | gen::MARKS);
        Text t = in.t.value_or(Text());
        auto up = model::upper_str(t), lo = model::lower_str(t), ti = model::title_str(t);
        ctx.nontrivial = !in.t || up != t || lo != t || ti != t;
        if (model::enc(up).size() != model::enc(t).size())
            ctx.cls("encoded length changes");
        gives_text("to_upper", api::to_upper(in.s), in, up);
        gives_text("to_lower", api::to_lower(in.s), in, lo);
        gives_text("to_title", api::to_title(in.s), in, ti);
        if (src.flag(1, 4))
            check_case_of(gen::big(src));
    };
    p.sweep_size = 0x110000;
    p.sweep_text = "every code point U+0000 to U+10FFFF: the three mappings, alone and as (the start, middle, end of) a string";
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        auto c = char32_t(i);
        ctx.nontrivial = model::upper(c) != c || model::lower(c) != c || model::title(c) != c;
        check_case_of(c);
        if (ctx.nontrivial || i % 32 == 0 || pbt::is_thorough())
        {
            for (auto& t : {Text{c}, Text{c, 'a', ' ', c, c, 0x10428}, Text{'x', c, 'Y'}})
            {
                auto s = model::enc(t);
                gives("to_upper", api::to_upper(s), model::enc(model::upper_str(t)));
                gives("to_lower", api::to_lower(s), model::enc(model::lower_str(t)));
                gives("to_title", api::to_title(s), model::enc(model::title_str(t)));
            }
        }
    };
    p.quick_cases = 600000;
    p.thorough_cases = 30000000;
    return p;
}

static Property c07()
{
    Property p;
    p.id = "C07";
    p.rule = "A case is a string rich in decomposable code points (also those whose first element decomposes further), "
             "their parts and other text, or an invalid one, compared with a recursive model on the committed data. "
             "Non-trivial: something decomposes, or the string is invalid UTF-8.";
    p.run = [](Src& src, Ctx& ctx)
    {
        auto in = gen_input(src, ctx, src.flag(1, 3) ? gen::NORM : gen::NORM | gen::ASCII | gen::MARKS | gen::LETTERS);
        auto e = model::decompose_str(in.t.value_or(Text()));
        ctx.nontrivial = !in.t || e != *in.t;
        auto r = api::to_decomposed(in.s);
        gives_text("to_decomposed", r, in, e);
        if (!r.threw)
            gives("to_decomposed a second time", api::to_decomposed(r.v), r.v);
        if (src.flag(1, 4))
        {
            auto c = gen::big(src);
            ctx.note_cp("c", c);
            if (c <= model::MAX)
                gives("decompose", api::decompose(c), model::decompose(c));
            else
                gives("decompose", api::decompose(c), Text(1, c));
        }
    };
    p.sweep_size = 0x110000;
    p.sweep_text = "every code point U+0000 to U+10FFFF, alone and within a string";
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        auto c = char32_t(i);
        auto e = model::decompose(c);
        ctx.nontrivial = e.size() > 1;
        gives("decompose", api::decompose(c), e);
        if (ctx.nontrivial || i % 32 == 0 || pbt::is_thorough())
        {
            gives("to_decomposed", api::to_decomposed(model::enc(c)), model::enc(e));
            gives("to_decomposed", api::to_decomposed(model::enc(Text{'x', c, 0xC5, c, 'y'})),
                  model::enc(U'x' + e + U"A\u030A" + e + U'y'));
        }
    };
    p.quick_cases = 600000;
    p.thorough_cases = 30000000;
    return p;
}

// Texts whose neighbours often are pairs: parts of decompositions with
// prefixes, changes and repetitions.
static Text pairs_text(Src& src)
{
    auto& l = model::lists();
    Text t;
    while (t.size() < 60 && src.flag(4, 5))
    {
        switch (src.weighted({5, 3, 3, 2, 2, 2}))
        {
        case 0:
        case 1:
        {
            auto c = l.decomposable[src.choose(0, l.decomposable.size() - 1)];
            auto d = model::decompose(c);
            if (src.flag(1, 4))
            {
                auto q = model::pair(c);
                d = Text{q->first, q->second};
            }
            t += d.substr(0, src.choose_by(0, d.size(), [&]() {return src.raw(3) ? d.size() : src.raw(d.size() + 1);}));
            break;
        }
        case 2:
        {
            auto c = l.deep[src.choose(0, l.deep.size() - 1)];
            auto d = model::decompose(c);
            // In another order.
            if (src.flag(1, 3))
                std::swap(d[src.choose(0, d.size() - 1)], d[src.choose(0, d.size() - 1)]);
            t += d;
            break;
        }
        case 3: t += l.second[src.choose(0, l.second.size() - 1)]; break;
        case 4: t += l.first[src.choose(0, l.first.size() - 1)]; break;
        default: t += gen::cp(src, gen::NORM | gen::ASCII);
        }
    }
    return t;
}

static Property c08()
{
    Property p;
    p.id = "C08";
    p.rule = "A case is a string made of decompositions (whole, cut, reordered, repeated) and other text, or an "
             "invalid one; composing is compared with a left fold over the pairs of the committed data, and with the "
             "laws relating it to decomposing. Non-trivial: something composes, or the string is invalid UTF-8.";
    p.run = [](Src& src, Ctx& ctx)
    {
        Input in;
        if (src.flag(3, 5))
        {
            in.t = pairs_text(src);
            in.s = model::enc(*in.t);
            ctx.note("s", in.s);
            ctx.cls("made of pairs");
        }
        else
            in = gen_input(src, ctx, gen::NORM | gen::MARKS | gen::ASCII);
        auto e = model::compose_str(in.t.value_or(Text()));
        ctx.nontrivial = !in.t || e != *in.t;
        auto r = api::to_composed(in.s);
        gives_text("to_composed", r, in, e);
        if (in.t && model::enc(*in.t) == in.s)
        {
            auto d = api::to_decomposed(in.s);
            gives("to_decomposed of to_composed", api::to_decomposed(r.v), d.v);
            if (e == *in.t)
                ctx.cls("no pairs");
            else if (e.size() + 1 < in.t->size())
                ctx.cls("several pairs");
        }
    };
    p.sweep_size = 0x110000;
    p.sweep_text = "every code point: composing its decomposition, its pair, and it with something following it";
    p.sweep_one = [](uint64_t i, Ctx& ctx)
    {
        auto c = char32_t(i);
        auto q = model::pair(c);
        ctx.nontrivial = q.has_value();
        auto s = model::enc(c);
        if (!q && i % 8 && !pbt::is_thorough())
            return;
        gives("to_composed of the decomposition", api::to_composed(model::enc(model::decompose(c))), s);
        auto t = Text{c, 0x301, 'x', c, c, 0x338, 'z'};
        gives("to_composed", api::to_composed(model::enc(t)), model::enc(model::compose_str(t)));
        if (q)
        {
            t = Text{q->first, q->second, 'x', q->second, q->first, 'x', q->first, q->first, q->second};
            gives("to_composed", api::to_composed(model::enc(t)), model::enc(model::compose_str(t)));
            // Values with the same low bits, neighbours.
            for (auto a : std::initializer_list<char32_t>{q->first + 1, q->first - 1, q->first ^ 0x10000, q->first ^ 0x1000, q->first})
                for (auto b : std::initializer_list<char32_t>{q->second + 1, q->second - 1, q->second ^ 0x10000, q->second ^ 0x1000,
                                   q->second | 0x100000, q->second})
                {
                    if (a > model::MAX || b > model::MAX)
                        continue;
                    t = Text{a, b};
                    gives("to_composed", api::to_composed(model::enc(t)), model::enc(model::compose_str(t)));
                }
        }
    };
    p.quick_cases = 600000;
    p.thorough_cases = 30000000;
    return p;
}

Property pbt::make_property()
{
    load_model();
    string id = getenv("PBT_PROPERTY");
    return id == "C05" ? c05() : id == "C06" ? c06() : id == "C07" ? c07() : c08();
}
