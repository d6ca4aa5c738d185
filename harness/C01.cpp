#include "values.hpp"
using namespace hv;
using mc::choose;

static const std::vector<std::string> KEYS = {"k", "kk", ""};
static const std::vector<std::string> UNI = {"k", "kk", "", "absent", "K", "k ", "k.k"};

namespace
{
struct World
{
    Dictionary d[2];
    Model m[2];
};

// one operation of the alphabet on side s of the world
void step(World& w, int op)
{
    auto ins = [&](Dictionary& d, Model& m, const std::string& k, Val v)
    {
        MC_STEP("insert '", k, "' ", str(v));
        d.insert(k, make(v));
        m[k] = v;
    };
    if (op < 12) // insert: 3 keys x 4 values
    {
        static const Val vs[] = {{INT, 1}, {STR, 2}, {DBL, 1}, {DICT, 1}};
        ins(w.d[0], w.m[0], KEYS[op / 4], vs[op % 4]);
        return;
    }
    op -= 12;
    if (op < 3)
    {
        MC_STEP("remove '", KEYS[op], "'");
        w.d[0].remove(KEYS[op]);
        w.m[0].erase(KEYS[op]);
        return;
    }
    op -= 3;
    if (op < 2) // element assignment: replaces the value of a present key only
    {
        const auto& k = KEYS[op];
        MC_STEP("d['", k, "'] = string");
        if (w.m[0].count(k))
        {
            w.d[0][k] = make({STR, 3});
            w.m[0][k] = {STR, 3};
        }
        else mc::expectThrow<std::out_of_range>("assign-absent", [&] { w.d[0][k] = make({STR, 3}); }, "assigning absent '" + k + "'");
        return;
    }
    op -= 2;
    switch (op)
    {
    case 0: // edit through a typed reference
        MC_STEP("++get<int>('k')");
        if (w.m[0].count("k") && w.m[0]["k"].tag == INT)
        {
            ++w.d[0].get<int>("k");
            ++w.m[0]["k"].n;
        }
        else mc::prune();
        break;
    case 1:
        MC_STEP("other = this (copy assignment)");
        w.d[1] = w.d[0];
        w.m[1] = w.m[0];
        break;
    case 2:
        MC_STEP("this = other (copy assignment)");
        w.d[0] = w.d[1];
        w.m[0] = w.m[1];
        break;
    case 3:
    {
        MC_STEP("this = move(other); other = {}");
        w.d[0] = std::move(w.d[1]);
        w.m[0] = std::move(w.m[1]);
        w.d[1] = Dictionary();
        w.m[1].clear();
        break;
    }
    case 4:
    {
        MC_STEP("this = this");
        Dictionary& self = w.d[0];
        w.d[0] = self;
        break;
    }
    case 5:
    {
        MC_STEP("this rebuilt from its map");
        Dictionary t(w.d[0].getMap());
        w.d[0].insert("k", make({VEC, 2})); // must not reach t
        std::swap(t, w.d[0]);
        break;
    }
    case 6:
    {
        MC_STEP("this = initializer list");
        w.d[0] = Dictionary({{"k", make({BOOL, 1})}, {"", make({STR, 0})}});
        w.m[0] = {{"k", {BOOL, 1}}, {"", {STR, 0}}};
        break;
    }
    case 7:
    {
        MC_STEP("copy constructed, original edited and dropped");
        Dictionary t(w.d[0]);
        w.d[0].insert("kk", make({INT, 5}));
        w.d[0].remove("k");
        Dictionary u(std::move(t));
        w.d[0] = u;
        u.insert("zz", 1);
        break;
    }
    case 8:
        MC_STEP("swap sides");
        std::swap(w.d[0], w.d[1]);
        std::swap(w.m[0], w.m[1]);
        break;
    case 9:
        MC_STEP("observe");
        checkDict(w.d[0], w.m[0], UNI, "this");
        break;
    case 10: // the map handed out is the content itself
        MC_STEP("getMap()['kk'] = float");
        w.d[0].getMap()["kk"] = make({FLOAT, 2});
        w.m[0]["kk"] = {FLOAT, 2};
        break;
    case 11: // lookups of one key on their own
    {
        const Dictionary& c = w.d[0];
        MC_STEP("look up 'kk'");
        MC_CHECK(c.contains("kk") == (w.m[0].count("kk") > 0) && c.isDict("kk") == (w.m[0].count("kk") && w.m[0]["kk"].tag == DICT), "membership", "contains/isDict of 'kk'");
        break;
    }
    case 12: // the inserted value is an entry of the same dictionary
        MC_STEP("insert 'kk', this['k']");
        if (!w.m[0].count("k")) mc::prune();
        w.d[0].insert("kk", w.d[0]["k"]);
        w.m[0]["kk"] = w.m[0]["k"];
        break;
    case 13:
        MC_STEP("insert 'k', this['k']");
        if (!w.m[0].count("k")) mc::prune();
        w.d[0].insert("k", w.d[0]["k"]);
        break;
    case 14:
        MC_STEP("removes all, by the keys it lists");
        for (const auto& k : w.d[0].keys()) w.d[0].remove(k);
        w.m[0].clear();
        break;
    }
}
constexpr int NOPS = 12 + 3 + 2 + 15;

void history(int maxLen)
{
    World w;
    int len = choose(maxLen + 1, "length");
    for (int i = 0; i < len; ++i) step(w, choose(NOPS, "op"));
    checkDict(w.d[0], w.m[0], UNI, "this");
    checkDict(w.d[1], w.m[1], UNI, "other");
    mc::noteState(str(w.m[0]) + "|" + str(w.m[1]));
}
}

MC_SCENARIO(histories, "every history of up to 4 (thorough: 5) of 32 operations on two dictionaries, 3 keys, 5 value kinds, from empty")
{
    history(mc::thorough() ? 5 : 4);
}

MC_SCENARIO(histories_from_filled, "every history of up to 2 (thorough: 3) operations on a dictionary already holding 1, 11, 12, 30 or 70 further entries")
{
    static const int fill[] = {1, 11, 12, 30, 70};
    World w;
    int n = fill[choose(5, "prefill")];
    std::vector<std::string> uni = UNI;
    for (int i = 0; i < n; ++i)
    {
        std::string k = "f" + std::to_string(i);
        Val v {i % NTAGS, 1 + i % 5};
        w.d[0].insert(k, make(v));
        w.m[0][k] = v;
        uni.push_back(k);
    }
    int len = choose((mc::thorough() ? 3 : 2) + 1, "length");
    for (int i = 0; i < len; ++i) step(w, choose(NOPS, "op"));
    checkDict(w.d[0], w.m[0], uni, "this");
    checkDict(w.d[1], w.m[1], uni, "other");
    mc::noteState(std::to_string(n) + str(w.m[0]) + "|" + str(w.m[1]));
}

// every ordered pair of (type, value) under one key, by each way of writing
MC_SCENARIO(overwrite_pairs, "all ordered pairs of 17 value types and a content-less entry x 2 values under one key x 3 ways of writing x reader first/not x with and without another entry")
{
    Dictionary d;
    Model m;
    Val a {choose(NTAGS + 1, "type1"), choose(2, "v1")};
    Val b {choose(NTAGS + 1, "type2"), choose(2, "v2")};
    if (a.tag == NTAGS) a = {EMPTY, 0};
    if (b.tag == NTAGS) b = {EMPTY, 0};
    int how = choose(3, "how");
    bool look = choose(2, "read between");
    if (choose(2, "another entry"))
    {
        d.insert("other", 3);
        m["other"] = {INT, 3};
    }
    d.insert("x", make(a));
    m["x"] = a;
    if (look) checkDict(d, m, UNI, "between");
    MC_STEP("overwrite ", str(a), " by ", str(b), " how=", how);
    if (how == 0) d.insert("x", make(b));
    else if (how == 1) d["x"] = make(b);
    else
    {
        d.remove("x");
        d.insert("x", make(b));
    }
    m["x"] = b;
    checkDict(d, m, UNI, "after");
    Dictionary c = d;
    d.remove("x");
    checkDict(c, m, UNI, "copy");
    m.erase("x");
    checkDict(d, m, UNI, "after removal");
    mc::noteState(str(a) + str(b));
}

// keys are opaque byte strings: no pair of different keys is ever confused
MC_SCENARIO(key_pairs, "all ordered pairs out of 49 keys chosen to collide under trimming, case folding, prefixes, patterns, separators, comment signs, quoting, encodings, embedded zeros and length")
{
    static const std::vector<std::string> K = {
        "", " ", "a", "A", "a ", " a", "a\n", "aa", "a.a", "a/a", "a:a", "a_a", "a-a", "a::a", "id", "name", "0", "00", "1", "-1",
        std::string("a\0", 2), std::string("\0", 1), std::string("a\0b", 3), std::string(15, 'a'), std::string(16, 'a'), std::string(200, 'a'),
        "*", "a*", "a/", "/", ".", "..", "a.", "_", "_a", "#", "#a", "$", "$a", "\\", "\"a\"", "a,a", "a;", "{", "//", "\xc3\xa4", "\xff", std::string(300, 'a'), std::string(70000, 'a')
    };
    int i = choose(static_cast<int>(K.size()), "key1"), j = choose(static_cast<int>(K.size()), "key2");
    int mode = choose(3, "mode");
    Dictionary d;
    Model m;
    d.insert(K[i], 10);
    m[K[i]] = {INT, 10};
    MC_STEP("keys #", i, " and #", j, " mode ", mode);
    if (mode == 0)
    {
        d.insert(K[j], std::string("text-2"));
        m[K[j]] = {STR, 2};
    }
    else if (mode == 1)
    {
        d.remove(K[j]);
        m.erase(K[j]);
    }
    else
    {
        d = Dictionary(std::unordered_map<std::string, std::any> {{K[i], 10}});
        d.insert(K[j], 4);
        m[K[j]] = {INT, 4};
        d.remove(K[i]);
        m.erase(K[i]);
    }
    checkDict(d, m, K, "dict");
    mc::noteState(std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(mode));
}

// growth: n insertions, one removal, m reinsertions; every size and victim
MC_SCENARIO(growth, "every dictionary size 1..48 (thorough: 130) x every removed element, then reinsertion under another type")
{
    int n = 1 + choose(mc::thorough() ? 130 : 48, "size");
    int victim = choose(n, "victim");
    Dictionary d;
    Model m;
    std::vector<std::string> uni;
    for (int i = 0; i < n; ++i)
    {
        std::string k = "key" + std::to_string(i);
        uni.push_back(k);
        Val v {i % 3, i};
        d.insert(k, make(v));
        m[k] = v;
        mc::countStep();
    }
    std::string k = uni[static_cast<size_t>(victim)];
    d.remove(k);
    m.erase(k);
    checkDict(d, m, uni, "after removal");
    d.insert(k, make({VEC, 3}));
    m[k] = {VEC, 3};
    d.insert("new", make({DBL, 3}));
    m["new"] = {DBL, 3};
    uni.push_back("new");
    checkDict(d, m, uni, "after reinsertion");
    mc::noteState(std::to_string(n) + "/" + std::to_string(victim));
}

MC_SCENARIO(shrink, "dictionaries of 5 sizes up to 700 emptied by removals in 3 orders, with a look at every other entry after every removal")
{
    static const int sizes[] = {20, 60, 150, 400, 700};
    int n = sizes[choose(mc::thorough() ? 5 : 4, "size")], order = choose(3, "order"), again = choose(2, "reuse");
    Dictionary d;
    std::map<std::string, int> m;
    auto key = [](int i) { return "key" + std::to_string(i); };
    auto look = [&](const std::string& after)
    {
        MC_CHECK(d.getMap().size() == m.size() && d.keys().size() == m.size() && d.empty() == m.empty(), "map-size", after, ": ", d.keys().size(), " entries instead of ", m.size());
        const Dictionary& c = d;
        for (auto& [k, v] : m) MC_CHECK(c.contains(k) && c.get<int>(k) == v, "value", after, ": entry ", k, " is lost or changed");
        mc::countStep();
    };
    for (int i = 0; i < n; ++i)
    {
        d.insert(key(i), i);
        m[key(i)] = i;
    }
    look("after filling");
    for (int i = 0; i < n; ++i)
    {
        int v = order == 0 ? i : order == 1 ? n - 1 - i : (i % 2 ? n - 1 - i / 2 : i / 2);
        d.remove(key(v));
        m.erase(key(v));
        MC_CHECK(!d.contains(key(v)), "membership", key(v), " is still there after its removal");
        look("after removing " + key(v));
        if (again && i % 50 == 0)
        {
            d.insert("again" + std::to_string(i), i);
            m["again" + std::to_string(i)] = i;
            look("after an insertion");
        }
    }
    mc::noteState(std::to_string(n) + "/" + std::to_string(order) + "/" + std::to_string(again));
}

MC_SCENARIO(bulk_construction, "every subset of 4 keys in every order with every type of 3, as map and as initializer list, equal to element-wise insertion")
{
    static const std::vector<std::string> K = {"p", "q", "", "pp"};
    std::vector<int> perm;
    int n = choose(5, "count");
    std::vector<std::pair<std::string, std::any>> items;
    Model m;
    std::vector<int> left = {0, 1, 2, 3};
    for (int i = 0; i < n; ++i)
    {
        int p = choose(static_cast<int>(left.size()), "which");
        int k = left[static_cast<size_t>(p)];
        left.erase(left.begin() + p);
        static const int tags[] = {INT, STR, EMPTY};
        Val v {tags[choose(3, "type")], i + 1};
        if (v.tag == EMPTY) v.n = 0;
        items.push_back({K[static_cast<size_t>(k)], make(v)});
        m[K[static_cast<size_t>(k)]] = v;
    }
    Dictionary d;
    switch (n)
    {
    case 0: d = Dictionary(std::initializer_list<std::pair<std::string, std::any>> {}); break;
    case 1: d = Dictionary({items[0]}); break;
    case 2: d = Dictionary({items[0], items[1]}); break;
    case 3: d = Dictionary({items[0], items[1], items[2]}); break;
    case 4: d = Dictionary({items[0], items[1], items[2], items[3]}); break;
    }
    MC_STEP("bulk of ", n);
    std::vector<std::string> uni = K;
    checkDict(d, m, uni, "initializer list");
    std::unordered_map<std::string, std::any> mp;
    for (auto& it : items) mp[it.first] = it.second;
    Dictionary e(mp);
    mp["p"] = 99;
    mp.erase("q");
    checkDict(e, m, uni, "map");
    d.insert("p", make({VEC, 1}));
    m["p"] = {VEC, 1};
    checkDict(d, m, uni, "after a later insertion");
    mc::noteState(str(m));
}

MC_SCENARIO(own_parts, "entries of every type (17 and content-less) inserted or assigned again from the dictionary's own storage, under the same, another or a new key, with the key itself taken from the stored entries, in dictionaries of 1..24 entries; removal by a stored key")
{
    static const int N[] = {1, 2, 11, 12, 13, 23, 24};
    int n = N[choose(7, "entries")];
    Val v {choose(NTAGS + 1, "type"), 3};
    if (v.tag == NTAGS) v = {EMPTY, 0};
    int use = choose(7, "use");
    Dictionary d;
    Model m;
    std::vector<std::string> uni = {"new", "absent"};
    for (int i = 0; i < n; ++i)
    {
        std::string k = mc::cat("k", i);
        uni.push_back(k);
        Val x = i == n / 2 ? v : Val {i % 3, i};
        d.insert(k, make(x));
        m[k] = x;
    }
    const std::string k = mc::cat("k", n / 2), other = "k0";
    auto stored = [&](const std::string& key) -> const std::string& { return d.getMap().find(key)->first; };
    MC_STEP(n, " entries, ", str(v), " use ", use);
    switch (use)
    {
    case 0: d.insert(k, d[k]); break;
    case 1: d.insert(other, d[k]); m[other] = v; break;
    case 2: d.insert("new", d[k]); m["new"] = v; break;
    case 3: d[other] = d[k]; m[other] = v; break;
    case 4: d.insert(stored(k), d[stored(other)]); m[k] = m[other]; break;
    case 5: d.remove(stored(k)); m.erase(k); break;
    case 6: // everything out, by the stored keys
        while (!d.empty()) d.remove(d.getMap().begin()->first);
        m.clear();
        break;
    }
    checkDict(d, m, uni, "dictionary");
    mc::noteState(mc::cat(n, str(v), use));
}
MC_SCENARIO(large, "dictionaries of 7 sizes up to 70000 entries, filled one by one, from a map, copied, assigned, moved or move-assigned: every entry and nothing else")
{
    static const int N[] = {255, 256, 1025, 4097, 10001, 65537, 70000};
    int n = N[choose(7, "entries")], how = choose(6, "how");
    auto key = [](int i) { return mc::cat("key", i); };
    Dictionary d;
    if (how == 1)
    {
        std::unordered_map<std::string, std::any> mp;
        for (int i = 0; i < n; ++i) mp[key(i)] = i;
        d = Dictionary(mp);
    }
    else
    {
        Dictionary from;
        for (int i = 0; i < n; ++i) from.insert(key(i), i);
        if (how == 0) std::swap(d, from);
        else if (how == 2)
        {
            Dictionary c(from);
            for (int i = 0; i < n; ++i) MC_CHECK(from.get<int>(key(i)) == i, "value", "entry ", i, " of the source of a copy");
            from.remove(key(n - 1));
            from[key(0)] = -1;
            d = std::move(c);
        }
        else if (how == 3)
        {
            d.insert("before", 1);
            d = from;
            from.remove(key(1));
        }
        else if (how == 4)
        {
            Dictionary c(std::move(from));
            d = c;
        }
        else d = std::move(from);
    }
    MC_STEP(n, " entries, how ", how);
    const Dictionary& c = d;
    MC_CHECK(c.keys().size() == size_t(n) && c.getMap().size() == size_t(n) && !c.empty(), "map-size", c.keys().size(), " entries instead of ", n);
    for (int i = 0; i < n; ++i) MC_CHECK(c.contains(key(i)) && c.get<int>(key(i)) == i, "value", "entry ", i, " of ", n);
    MC_CHECK(!c.contains("before") && !c.contains(key(n)), "membership", "further entries");
    mc::noteState(mc::cat(n, how));
}
