#include "values.hpp"
#include "NeoFOAM/core/input.hpp"
using namespace hv;
using mc::choose;
using NeoFOAM::Input;

namespace
{
std::vector<int> g_tags; // declared option types, in positional order
std::string key(size_t i) { return "opt" + std::to_string(i); }
int g_reads = 0;
bool g_nested = false;

// an object configured from user input the way the library's classes are
struct Settings
{
    std::vector<std::any> got;
    template<typename T>
    static T opt(const Dictionary& d, size_t i) { return d.get<T>(key(i)); }
    static Settings read(const Dictionary& d)
    {
        ++g_reads;
        Settings s;
        for (size_t i = 0; i < g_tags.size(); ++i)
            withTag(g_tags[i], [&](auto p) { s.got.push_back(std::any(opt<decltype(p)>(d, i))); return 0; });
        return s;
    }
    static Settings read(const TokenList& t)
    {
        ++g_reads;
        Settings s;
        for (size_t i = 0; i < g_tags.size(); ++i)
            withTag(g_tags[i], [&](auto p) { s.got.push_back(std::any(decltype(p)(t.next<decltype(p)>()))); return 0; });
        return s;
    }
};
// the first option is read by the outer class, the rest by an inner one from the same input
struct Outer
{
    std::vector<std::any> got;
    template<typename I>
    static Outer from(const I& in)
    {
        Outer o;
        std::vector<int> all = g_tags;
        // outer option
        g_tags = {all[0]};
        Settings first = Settings::read(in);
        o.got = first.got;
        g_tags = all;
        if constexpr (std::is_same_v<I, TokenList>)
        {
            for (size_t i = 1; i < all.size(); ++i)
                withTag(all[i], [&](auto p) { o.got.push_back(std::any(decltype(p)(in.template next<decltype(p)>()))); return 0; });
        }
        else
        {
            for (size_t i = 1; i < all.size(); ++i)
                withTag(all[i], [&](auto p) { o.got.push_back(std::any(in.template get<decltype(p)>(key(i)))); return 0; });
        }
        return o;
    }
    static Outer read(const Dictionary& d) { return from(d); }
    static Outer read(const TokenList& d) { return from(d); }
};
bool same(const std::vector<std::any>& got, const std::vector<Val>& v)
{
    if (got.size() != v.size()) return false;
    for (size_t i = 0; i < v.size(); ++i)
        if (!holds(got[i], v[i])) return false;
    return true;
}
}

MC_SCENARIO(forms, "every sequence of 0..3 options out of 17 types: keyed and positional input, as temporaries, named inputs and re-read inputs, flat and nested readers, deliver the same settings and leave the caller's objects unchanged")
{
    int n = choose(4, "options");
    std::vector<Val> v;
    g_tags.clear();
    for (int i = 0; i < n; ++i)
    {
        Val x {choose(NTAGS, "type"), i + 1};
        v.push_back(x);
        g_tags.push_back(x.tag);
    }
    Dictionary d;
    TokenList t;
    Model m;
    // keyed input is inserted in another order than the declaration
    for (int i = n - 1; i >= 0; --i)
    {
        d.insert(key(static_cast<size_t>(i)), make(v[static_cast<size_t>(i)]));
        m[key(static_cast<size_t>(i))] = v[static_cast<size_t>(i)];
    }
    d.insert("unrelated", 5);
    m["unrelated"] = {INT, 5};
    for (auto& x : v) t.insert(make(x));
    Input id = d, it = t;
    for (int round = 0; round < 2; ++round)
    {
        g_reads = 0;
        MC_CHECK(same(NeoFOAM::read<Settings>(id).got, v), "keyed-settings", "keyed input, round ", round);
        MC_CHECK(same(NeoFOAM::read<Settings>(it).got, v), "positional-settings", "positional input, round ", round);
        MC_CHECK(g_reads == 2, "reads", "the reader ran ", g_reads, " times");
        MC_CHECK(same(NeoFOAM::read<Settings>(Input(d)).got, v), "keyed-settings", "keyed temporary");
        MC_CHECK(same(NeoFOAM::read<Settings>(Input(t)).got, v), "positional-settings", "positional temporary");
        MC_CHECK(same(NeoFOAM::read<Settings>(d).got, v), "keyed-settings", "dictionary given directly");
        MC_CHECK(same(NeoFOAM::read<Settings>(t).got, v), "positional-settings", "token list given directly");
        if (n > 0)
        {
            MC_CHECK(same(NeoFOAM::read<Outer>(id).got, v), "keyed-settings", "nested reader, keyed");
            MC_CHECK(same(NeoFOAM::read<Outer>(it).got, v), "positional-settings", "nested reader, positional");
        }
        MC_STEP("round ", round, " n=", n);
    }
    MC_CHECK(id.index() == 0 && it.index() == 1, "input-form", "the input changed its form");
    checkDict(d, m, {"opt0", "opt1", "opt2", "opt3", "unrelated"}, "caller's dictionary");
    checkDict(std::get<Dictionary>(id), m, {"opt0", "opt1", "opt2", "opt3", "unrelated"}, "input dictionary");
    const TokenList& tl = std::get<TokenList>(it);
    MC_CHECK(tl.size() == v.size() && t.size() == v.size(), "positional-unchanged", "the caller's token list changed its size");
    MC_CHECK(same(std::vector<std::any>(t.tokens()), v), "positional-unchanged", "the caller's token list changed");
    std::string s;
    for (auto& x : v) s += str(x);
    mc::noteState(s);
}
MC_SCENARIO(partial, "inputs of 1..3 options (6 types) with every option missing or of every other type, both forms: rejected, and the caller's objects unchanged and usable afterwards")
{
    int n = 1 + choose(3, "options");
    static const int T[] = {INT, STR, DICT, DBL, SIZE, BOOL};
    std::vector<Val> v;
    g_tags.clear();
    for (int i = 0; i < n; ++i)
    {
        Val x {T[choose(6, "type")], i + 1};
        v.push_back(x);
        g_tags.push_back(x.tag);
    }
    int bad = choose(n, "bad option");
    int how = choose(7, "missing or as type");
    Val wrong {how < 6 ? T[how] : INT, 3};
    size_t b = static_cast<size_t>(bad);
    if (how < 6 && wrong.tag == v[b].tag) mc::prune();
    Dictionary d;
    TokenList t;
    Model m;
    std::vector<Val> toks;
    for (size_t i = 0; i < v.size(); ++i)
    {
        Val x = v[i];
        if (i == b)
        {
            if (how == 6)
            {
                if (i + 1 < v.size()) // positional input that lacks an option shifts: same as a wrong type unless types agree
                {
                    continue;
                }
                continue;
            }
            x = wrong;
        }
        d.insert(key(i), make(x));
        m[key(i)] = x;
        t.insert(make(x));
        toks.push_back(x);
    }
    MC_STEP("option ", bad, " of ", n, how == 6 ? std::string(" missing") : " given as " + str(wrong));
    Input id = d, it = t;
    if (how == 6)
    {
        mc::expectThrow<std::out_of_range>("missing-option", [&] { (void)NeoFOAM::read<Settings>(id); }, "keyed input lacking an option");
        mc::expectAnyError("missing-option", [&] { (void)NeoFOAM::read<Settings>(it); }, "positional input lacking an option");
    }
    else
    {
        mc::expectThrow<std::bad_any_cast>("mistyped-option", [&] { (void)NeoFOAM::read<Settings>(id); }, "keyed input with a mistyped option");
        mc::expectThrow<std::bad_any_cast>("mistyped-option", [&] { (void)NeoFOAM::read<Settings>(it); }, "positional input with a mistyped option");
    }
    checkDict(d, m, {"opt0", "opt1", "opt2", "opt3"}, "caller's dictionary");
    checkDict(std::get<Dictionary>(id), m, {"opt0", "opt1", "opt2", "opt3"}, "input dictionary");
    MC_CHECK(same(std::vector<std::any>(t.tokens()), toks), "positional-unchanged", "the caller's token list changed");
    // a corrected input is accepted afterwards
    d.insert(key(b), make(v[b]));
    TokenList u;
    for (auto& x : v) u.insert(make(x));
    MC_CHECK(same(NeoFOAM::read<Settings>(Input(d)).got, v), "keyed-settings", "corrected keyed input");
    MC_CHECK(same(NeoFOAM::read<Settings>(Input(u)).got, v), "positional-settings", "corrected positional input");
    mc::noteState(mc::cat(n, bad, how, str(v[b])));
}
MC_SCENARIO(partially_read_position, "a positional input already read up to every position: the reader continues there, and does so again on every later read of the same input")
{
    int n = choose(5, "tokens"), pos = choose(n + 1, "position"), want = choose(n - pos + 1, "options");
    TokenList t;
    std::vector<Val> v;
    for (int i = 0; i < n; ++i)
    {
        Val x {i % 2 ? STR : INT, i + 1};
        t.insert(make(x));
        v.push_back(x);
    }
    for (int i = 0; i < pos; ++i)
    {
        if (i % 2) (void)t.next<std::string>();
        else (void)t.next<int>();
    }
    g_tags.clear();
    std::vector<Val> exp;
    for (int i = pos; i < pos + want; ++i)
    {
        g_tags.push_back(v[static_cast<size_t>(i)].tag);
        exp.push_back(v[static_cast<size_t>(i)]);
    }
    Input in = t;
    MC_STEP(n, " tokens at ", pos, " reading ", want);
    for (int r = 0; r < 3; ++r) MC_CHECK(same(NeoFOAM::read<Settings>(in).got, exp), "positional-settings", "read ", r, " at position ", pos);
    mc::noteState(mc::cat(n, pos, want));
}
