#include "values.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
#include <memory>
using namespace hv;
using mc::choose;
using NeoFOAM::StencilDataBase;

namespace
{
const std::vector<std::string> KEYS = {"scheme", "weights"};
const std::vector<std::string> UNI = {"scheme", "weights", "", "Scheme", "scheme ", "absent"};
void ins(StencilDataBase& s, Model& m, const std::string& k, Val v)
{
    if (v.tag == EMPTY) s.insert(k, std::any());
    else withType(v, [&](auto x) { s.insert(k, x); return 0; });
    m.insert({k, v}); // the first stored object stays
}
void check(StencilDataBase& s, const Model& m, const std::vector<std::string>& uni, const char* who)
{
    const StencilDataBase& c = s;
    for (int pass = 0; pass < 2; ++pass)
    {
        for (auto& k : uni)
        {
            MC_CHECK(c.contains(k) == (m.count(k) > 0), "membership", who, ": contains('", k, "') is ", c.contains(k), " for ", str(m));
            if (!m.count(k))
            {
                mc::expectThrow<std::out_of_range>("absent-entry", [&] { (void)s.get<int>(k); }, "get of an absent entry");
                mc::expectThrow<std::out_of_range>("absent-entry", [&] { (void)c.get<int>(k); }, "const get of an absent entry");
                mc::expectThrow<std::out_of_range>("absent-entry", [&] { (void)s[k]; }, "[] of an absent entry");
                mc::expectThrow<std::out_of_range>("absent-entry", [&] { (void)c[k]; }, "const [] of an absent entry");
            }
        }
        for (auto& [k, v] : m)
        {
            MC_CHECK(c.contains(k), "membership", who, ": '", k, "' lost");
            MC_CHECK(&c[k] == &s[k] && holds(c[k], v), "value", who, ": '", k, "' does not hold ", str(v));
            if (v.tag != EMPTY) withType(v, [&](auto x)
                     {
                         using T = decltype(x);
                         MC_CHECK(eq(c.get<T>(k), x), "typed-value", who, ": '", k, "'");
                         MC_CHECK(&c.get<T>(k) == &s.get<T>(k) && std::any_cast<T>(&s[k]) == &s.get<T>(k), "shared-object", who, ": accesses to '", k, "' give different objects");
                         return 0;
                     });
            int wrong = v.tag == INT ? STR : INT;
            withTag(wrong, [&](auto x)
                    {
                        using T = decltype(x);
                        mc::expectThrow<std::bad_any_cast>("wrong-type", [&] { (void)s.get<T>(k); }, "get as a wrong type");
                        mc::expectThrow<std::bad_any_cast>("wrong-type", [&] { (void)c.get<T>(k); }, "const get as a wrong type");
                        return 0;
                    });
        }
    }
}
// counts constructions of cached objects, as a lazily built scheme would
struct Cached
{
    static int built;
    std::shared_ptr<int> p = std::make_shared<int>(++built);
    static const std::shared_ptr<Cached> instance(StencilDataBase& s, const std::string& key)
    {
        if (!s.contains(key)) s.insert(key, std::make_shared<Cached>());
        return s.get<std::shared_ptr<Cached>>(key);
    }
};
int Cached::built = 0;

struct World
{
    StencilDataBase s, o;
    Model m, mo;
    const void* held = nullptr;
};
constexpr int NOPS = 8 + 8;
void step(World& w, int op)
{
    static const Val vs[] = {{INT, 1}, {STR, 2}, {INT, 3}, {VEC, 2}};
    if (op < 8)
    {
        MC_STEP("insert ", KEYS[static_cast<size_t>(op / 4)], " ", str(vs[op % 4]));
        ins(w.s, w.m, KEYS[static_cast<size_t>(op / 4)], vs[op % 4]);
        return;
    }
    switch (op - 8)
    {
    case 0:
        MC_STEP("edit the stored object");
        if (!w.m.count("scheme") || w.m["scheme"].tag != INT) mc::prune();
        w.s.get<int>("scheme") += 10;
        w.m["scheme"].n += 10;
        break;
    case 1:
        MC_STEP("replace by assignment to the entry");
        if (!w.m.count("scheme")) mc::prune();
        w.s["scheme"] = make({DBL, 4});
        w.m["scheme"] = {DBL, 4};
        w.held = nullptr;
        break;
    case 2: MC_STEP("other = this"); w.o = w.s; w.mo = w.m; break;
    case 3: MC_STEP("this = other"); w.s = w.o; w.m = w.mo; w.held = nullptr; break;
    case 4:
        MC_STEP("swap");
        std::swap(w.s, w.o);
        std::swap(w.m, w.mo);
        w.held = nullptr;
        break;
    case 5:
        MC_STEP("hold");
        if (!w.m.count("scheme")) mc::prune();
        w.held = &w.s["scheme"];
        break;
    case 6:
        MC_STEP("24 other entries");
        for (int i = 0; i < 24; ++i) ins(w.s, w.m, "n" + std::to_string(i), {i % NTAGS, i % 5});
        break;
    case 7: MC_STEP("observe"); check(w.s, w.m, UNI, "this"); break;
    }
}
}

MC_SCENARIO(histories, "every history of up to 4 (thorough: 5) of 16 operations on two caches, 2 keys, 4 values")
{
    World w;
    int len = choose((mc::thorough() ? 5 : 4) + 1, "len");
    for (int i = 0; i < len; ++i) step(w, choose(NOPS, "op"));
    mc::noteState(str(w.m) + str(w.mo));
    if (w.held) MC_CHECK(w.held == &w.s["scheme"], "shared-object", "the entry moved while other entries were added");
    check(w.s, w.m, UNI, "this");
    check(w.o, w.mo, UNI, "other");
}
MC_SCENARIO(first_wins, "all ordered pairs of 17 types x 2 values and entries without content: the second insertion changes nothing, holders of the first keep seeing it")
{
    Val a {choose(NTAGS + 1, "a"), choose(2, "na")}, b {choose(NTAGS + 1, "b"), choose(2, "nb")};
    if (a.tag == NTAGS) a = {EMPTY, 0};
    if (b.tag == NTAGS) b = {EMPTY, 0};
    StencilDataBase s;
    Model m;
    ins(s, m, "x", a);
    const void* p = &s["x"];
    ins(s, m, "x", b);
    MC_STEP(str(a), " then ", str(b));
    MC_CHECK(p == &s["x"], "shared-object", "entry moved");
    check(s, m, {"x", "y"}, "cache");
    StencilDataBase c(s);
    s["x"] = make(b);
    check(c, m, {"x", "y"}, "copy");
    m["x"] = b;
    check(s, m, {"x", "y"}, "cache after assignment");
    mc::noteState(str(a) + str(b));
}
MC_SCENARIO(lazy_instances, "every sequence of up to 6 requests over 2 keys and 2 caches (one a copy): each key's object is built once per cache and shared by all requests")
{
    Cached::built = 0;
    StencilDataBase s[2];
    std::map<std::pair<int, std::string>, int*> seen;
    int len = choose(7, "len");
    int built = 0;
    for (int i = 0; i < len; ++i)
    {
        int which = choose(2, "cache");
        std::string k = KEYS[static_cast<size_t>(choose(2, "key"))];
        MC_STEP("request ", k, " of ", which);
        auto c = Cached::instance(s[which], k);
        auto [it, fresh] = seen.insert({{which, k}, c->p.get()});
        built += fresh;
        MC_CHECK(it->second == c->p.get(), "shared-object", "request ", i, " got another object");
        MC_CHECK(Cached::built == built, "built-once", "after request ", i, " ", Cached::built, " objects were built instead of ", built);
        MC_CHECK(s[which].contains(k), "membership", "not cached");
    }
    mc::noteState(mc::cat(built, seen.size()));
}
MC_SCENARIO(growth, "caches of every size 0..60 (thorough: 200) x every re-inserted key: nothing moves, nothing is replaced")
{
    int n = 1 + choose(mc::thorough() ? 200 : 60, "size"), again = choose(n, "again");
    StencilDataBase s;
    Model m;
    std::vector<const void*> at;
    std::vector<std::string> uni = {"k", "k00"};
    for (int i = 0; i < n; ++i)
    {
        std::string k = "k" + std::to_string(i);
        ins(s, m, k, {i % NTAGS, i % 5});
        at.push_back(&s[k]);
        mc::countStep();
    }
    ins(s, m, "k" + std::to_string(again), {VEC, 4});
    for (int i = 0; i < n; ++i) MC_CHECK(at[static_cast<size_t>(i)] == &s["k" + std::to_string(i)], "shared-object", "entry ", i, " moved");
    check(s, m, uni, "cache");
    mc::noteState(mc::cat(n, ",", again));
}
MC_SCENARIO(keys, "all ordered pairs out of 14 tricky keys: different keys never share an entry")
{
    static const std::vector<std::string> K = {"", " ", "a", "A", "a ", "a/b", "a.b", "ab", "a_b", "0", "00", std::string("a\0", 2), std::string(15, 'a'), std::string(64, 'a')};
    size_t i = static_cast<size_t>(choose(14, "a")), j = static_cast<size_t>(choose(14, "b"));
    StencilDataBase s;
    Model m;
    ins(s, m, K[i], {INT, 1});
    ins(s, m, K[j], {STR, 2});
    MC_STEP("keys ", i, " ", j);
    check(s, m, K, "cache");
    mc::noteState(mc::cat(i, ",", j));
}
MC_SCENARIO(large, "caches of 11 sizes around the usual limits up to 1025 (thorough: 5000), re-inserted at 5 places, also in a copy: every entry still there, shared and unreplaced")
{
    static const int N[] = {61, 63, 64, 65, 100, 128, 129, 256, 257, 1000, 1025};
    int n = N[choose(11, "size")];
    if (mc::thorough() && n == 1025) n = 5000;
    int again = choose(5, "again"), copied = choose(2, "through a copy");
    StencilDataBase s;
    std::vector<std::shared_ptr<int>> made;
    std::vector<const void*> at;
    for (int i = 0; i < n; ++i)
    {
        auto p = std::make_shared<int>(i);
        made.push_back(p);
        s.insert(mc::cat("k", i), p);
        at.push_back(&s[mc::cat("k", i)]);
        mc::countStep();
    }
    int k = again == 0 ? 0 : again == 1 ? 1 : again == 2 ? n / 2 : again == 3 ? n - 2 : n - 1;
    MC_STEP(n, " entries, again ", k, " copied ", copied);
    StencilDataBase c = s;
    StencilDataBase& u = copied ? c : s;
    u.insert(mc::cat("k", k), std::make_shared<int>(-1));
    u.insert("new", std::make_shared<int>(-2));
    for (int i = 0; i < n; ++i)
    {
        std::string key = mc::cat("k", i);
        MC_CHECK(u.contains(key) && s.contains(key), "membership", "entry ", i, " of ", n, " is gone");
        MC_CHECK(&s[key] == at[size_t(i)], "shared-object", "entry ", i, " of ", n, " moved");
        MC_CHECK(u.get<std::shared_ptr<int>>(key) == made[size_t(i)], "first-kept", "entry ", i, " of ", n, " was replaced");
    }
    MC_CHECK(*u.get<std::shared_ptr<int>>("new") == -2, "membership", "the entry inserted last");
    if (copied) MC_CHECK(!s.contains("new"), "independent-copy", "an insertion into the copy shows in the original");
    mc::noteState(mc::cat(n, again, copied));
}
