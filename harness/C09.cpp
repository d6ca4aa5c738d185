#include "testcoll.hpp"
using namespace hv;
using namespace tc;
using mc::choose;

namespace
{
struct MColl
{
    int type = 0; // 1 A, 2 B, 3 A2
    int serial = 0;
    std::map<std::string, int> docs;
};
using MDb = std::map<std::string, MColl>;
std::string str(const MDb& m)
{
    std::string s = "{";
    for (auto& [k, v] : m) s += k + ":" + std::to_string(v.type) + "x" + std::to_string(v.docs.size()) + " ";
    return s + "}";
}
const std::string NAMES[] = {"fields", "oldTime", ""};

template<typename C>
C* recover(Database& db, const std::string& n)
{
    try
    {
        return &db.at<C>(n);
    }
    catch (const std::bad_cast&)
    {
        return nullptr;
    }
}
// the same through a collection seen as const
template<typename C>
const C* recoverConst(const Database& db, const std::string& n)
{
    try
    {
        return &db.at(n).as<C>();
    }
    catch (const std::bad_cast&)
    {
        return nullptr;
    }
}
void* typedAddress(Database& db, const std::string& n, int type)
{
    const Database& cdb = db;
    const CollA* ca = recoverConst<CollA>(cdb, n);
    const CollB* cb = recoverConst<CollB>(cdb, n);
    const CollA2* ca2 = recoverConst<CollA2>(cdb, n);
    MC_CHECK((ca != nullptr) == (type == 1) && (cb != nullptr) == (type == 2) && (ca2 != nullptr) == (type == 3), "typed-recovery", "const collection '", n, "' of type ", type, " recovered as ", ca ? "A " : "", cb ? "B " : "", ca2 ? "A2" : "");
    CollA* a = recover<CollA>(db, n);
    CollB* b = recover<CollB>(db, n);
    CollA2* a2 = recover<CollA2>(db, n);
    MC_CHECK((a != nullptr) == (type == 1) && (b != nullptr) == (type == 2) && (a2 != nullptr) == (type == 3), "typed-recovery", "collection '", n, "' of type ", type, " recovered as ", a ? "A " : "", b ? "B " : "", a2 ? "A2" : "");
    MC_CHECK(ca == a && cb == b && ca2 == a2, "identity", "const and mutable recovery of '", n, "' differ");
    return a ? static_cast<void*>(a) : b ? static_cast<void*>(b) : static_cast<void*>(a2);
}
struct World
{
    Database db;
    MDb m;
    std::map<std::string, std::pair<Collection*, void*>> addr;
};
const char* typeName(int t) { return t == 2 ? "BDocument" : "ADocument"; }

// insert (or get) under a name; payload puts one document into the new collection first
void insert(World& w, const std::string& n, int type, int payload)
{
    bool fresh = w.m.count(n) == 0;
    Collection* got = nullptr;
    auto put = [&](auto coll)
    {
        using C = decltype(coll);
        using D = std::conditional_t<std::is_same_v<C, CollB>, DocB, DocA>;
        if (payload) coll.insert(D(mkDoc("p" + std::to_string(payload), payload)));
        got = &w.db.insert(n, std::move(coll));
    };
    if (type == 1) put(CollA(w.db, n));
    if (type == 2) put(CollB(w.db, n));
    if (type == 3) put(CollA2(w.db, n));
    if (fresh)
    {
        w.m[n].type = type;
        if (payload) w.m[n].docs["p" + std::to_string(payload)] = payload;
        w.addr[n] = {got, nullptr};
    }
    MC_CHECK(got == &w.db.at(n), "insert-result", "insert of '", n, "' does not return the stored collection");
    MC_CHECK(got == w.addr[n].first, "insert-result", "insert under existing '", n, "' returned another collection");
    void* t = typedAddress(w.db, n, w.m[n].type);
    if (fresh) w.addr[n].second = t;
}
void addDoc(World& w, const std::string& n, const std::string& id, int v)
{
    auto& mm = w.m.at(n);
    bool r = false;
    if (mm.type == 1) r = w.db.at<CollA>(n).insert(DocA(mkDoc(id, v)));
    if (mm.type == 2) r = w.db.at<CollB>(n).insert(DocB(mkDoc(id, v)));
    if (mm.type == 3) r = w.db.at<CollA2>(n).insert(DocA(mkDoc(id, v)));
    MC_CHECK(r == !mm.docs.count(id), "doc-insert", "document insertion into '", n, "'");
    mm.docs.insert({id, v});
}
void checkOne(World& w, const std::string& n)
{
    const Database& c = w.db;
    bool has = w.m.count(n) > 0;
    MC_CHECK(c.contains(n) == has, "membership", "contains('", n, "') is ", c.contains(n), " for ", str(w.m));
    if (!has)
    {
        mc::expectThrow<std::out_of_range>("absent-collection", [&] { (void)w.db.at(n); }, "at('" + n + "')");
        mc::expectThrow<std::out_of_range>("absent-collection", [&] { (void)c.at(n); }, "const at('" + n + "')");
        return;
    }
    auto& mm = w.m.at(n);
    Collection& col = w.db.at(n);
    MC_CHECK(&col == &c.at(n), "identity", "const and mutable access to '", n, "' differ");
    MC_CHECK(&col == w.addr.at(n).first, "address", "collection '", n, "' moved");
    MC_CHECK(typedAddress(w.db, n, mm.type) == w.addr.at(n).second, "address", "typed collection '", n, "' moved");
    MC_CHECK(col.name() == n, "name", "collection '", n, "' calls itself '", col.name(), "'");
    MC_CHECK(col.type() == typeName(mm.type), "type", "collection '", n, "' has type ", col.type());
    MC_CHECK(&col.db() == &w.db && &c.at(n).db() == &w.db && &static_cast<const std::remove_cvref_t<decltype(col)>&>(col).db() == &w.db, "database", "collection '", n, "' does not know its database");
    MC_CHECK(col.size() == mm.docs.size(), "content", "collection '", n, "' holds ", col.size(), " documents instead of ", mm.docs.size());
    for (auto& [id, v] : mm.docs)
    {
        bool ok = true;
        try
        {
            ok = col.doc(id).get<int>("value") == v && c.at(n).doc(id).get<int>("value") == v;
        }
        catch (const std::exception&)
        {
            ok = false;
        }
        MC_CHECK(ok, "content", "document '", id, "' of '", n, "' lost or changed");
    }
}
void check(World& w)
{
    MC_CHECK(static_cast<const Database&>(w.db).size() == w.m.size(), "size", "database size ", w.db.size(), " for ", str(w.m));
    for (auto& n : NAMES) checkOne(w, n);
    for (auto& [n, v] : w.m) checkOne(w, n);
    for (auto n : {"absent", "Fields", "fields "}) checkOne(w, n);
}
constexpr int NOPS = 9 + 3 + 3 + 3;
void step(World& w, int op)
{
    if (op < 9)
    {
        MC_STEP("insert '", NAMES[op / 3], "' type ", 1 + op % 3, " with a document");
        insert(w, NAMES[op / 3], 1 + op % 3, 1 + op % 3);
        return;
    }
    op -= 9;
    if (op < 3)
    {
        MC_STEP("remove '", NAMES[op], "'");
        bool had = w.m.erase(NAMES[op]) > 0;
        w.addr.erase(NAMES[op]);
        MC_CHECK(w.db.remove(NAMES[op]) == had, "remove-result", "remove of '", NAMES[op], "'");
        return;
    }
    op -= 3;
    if (op < 3)
    {
        MC_STEP("document into '", NAMES[op], "'");
        if (!w.m.count(NAMES[op])) mc::prune();
        addDoc(w, NAMES[op], "n" + std::to_string(w.m[NAMES[op]].docs.size()), 7);
        return;
    }
    op -= 3;
    if (op == 0)
    {
        MC_STEP("20 other collections come");
        for (int i = 0; i < 20; ++i) insert(w, "other" + std::to_string(i), 1 + i % 3, i % 2);
    }
    if (op == 1)
    {
        MC_STEP("other collections go");
        for (int i = 0; i < 20; ++i)
        {
            std::string n = "other" + std::to_string(i);
            bool had = w.m.erase(n) > 0;
            w.addr.erase(n);
            MC_CHECK(w.db.remove(n) == had, "remove-result", "remove of '", n, "'");
        }
    }
    if (op == 2)
    {
        MC_STEP("instance() of every name");
        for (auto& n : NAMES)
        {
            auto it = w.m.find(n);
            if (it != w.m.end() && it->second.type != 1)
            {
                mc::expectThrow<std::bad_cast>("typed-recovery", [&] { (void)CollA::instance(w.db, n); }, "instance of another type");
                continue;
            }
            CollA& c = CollA::instance(w.db, n);
            if (it == w.m.end())
            {
                w.m[n].type = 1;
                w.addr[n] = {&w.db.at(n), &c};
            }
            MC_CHECK(&c == w.addr[n].second, "address", "instance of '", n, "' is another object");
        }
    }
}
}

MC_SCENARIO(histories, "every history of up to 4 (thorough: 5) of 18 operations over 3 names (one empty) and 3 collection types")
{
    World w;
    int len = choose((mc::thorough() ? 5 : 4) + 1, "len");
    for (int i = 0; i < len; ++i) step(w, choose(NOPS, "op"));
    mc::noteState(str(w.m));
    check(w);
}
MC_SCENARIO(histories_from_filled, "every history of up to 2 (thorough: 3) operations with all names taken and 20 other collections present")
{
    World w;
    for (int i = 0; i < 3; ++i) insert(w, NAMES[i], 1 + (i + choose(3, "type")) % 3, 4);
    step(w, 15);
    int len = choose((mc::thorough() ? 3 : 2) + 1, "len");
    for (int i = 0; i < len; ++i) step(w, choose(NOPS, "op"));
    mc::noteState(str(w.m));
    check(w);
}
MC_SCENARIO(growth, "databases of every size 1..40 (thorough: 120) x every removed name, then re-insertion as another type; all others unmoved")
{
    World w;
    int n = 1 + choose(mc::thorough() ? 120 : 40, "size"), victim = choose(n, "victim");
    for (int i = 0; i < n; ++i) insert(w, "c" + std::to_string(i), 1 + i % 3, 1 + i);
    std::string v = "c" + std::to_string(victim);
    MC_STEP(n, " collections, removed ", victim);
    MC_CHECK(w.db.remove(v), "remove-result", "remove");
    w.m.erase(v);
    w.addr.erase(v);
    check(w);
    MC_CHECK(!w.db.remove(v), "remove-result", "second remove");
    insert(w, v, 1 + (victim + 1) % 3, 0);
    insert(w, v, 1 + victim % 3, 5);
    check(w);
    mc::noteState(mc::cat(n, ",", victim));
}
MC_SCENARIO(large, "databases of 9 sizes up to 1025 x 4 removed names, then re-insertion: all others unmoved and complete")
{
    static const int N[] = {63, 64, 65, 128, 129, 256, 257, 1000, 1025};
    World w;
    int n = N[choose(9, "size")], victim = choose(4, "victim");
    for (int i = 0; i < n; ++i) insert(w, "c" + std::to_string(i), 1 + i % 3, 1 + i % 4);
    std::string v = "c" + std::to_string(victim == 0 ? 0 : victim == 1 ? 1 : victim == 2 ? n / 2 : n - 1);
    MC_STEP(n, " collections, removed ", v);
    MC_CHECK(w.db.remove(v), "remove-result", "remove");
    w.m.erase(v);
    w.addr.erase(v);
    check(w);
    insert(w, v, 2, 3);
    check(w);
    mc::noteState(mc::cat(n, ",", victim));
}
MC_SCENARIO(names, "all ordered pairs out of 24 tricky and derived names: different names never share a collection")
{
    static const std::vector<std::string> K = {"", " ", "a", "A", "a ", "a/b", "a.b", "ab", "a_b", "0", "00", std::string("a\0", 2), std::string(15, 'a'), std::string(64, 'a'),
                                             "a_old", "a_0", "aOld", "old_a", "aOldTime", "a_tmp", ".a", "a1", "a2", "_a"};
    World w;
    const auto& a = K[static_cast<size_t>(choose(int(K.size()), "a"))];
    const auto& b = K[static_cast<size_t>(choose(int(K.size()), "b"))];
    int rm = choose(3, "remove");
    insert(w, a, 1, 1);
    insert(w, b, 2, 2);
    MC_STEP("names '", a, "' '", b, "'");
    if (rm)
    {
        const auto& r = rm == 1 ? a : b;
        MC_CHECK(w.db.remove(r), "remove-result", "remove");
        w.m.erase(r);
        w.addr.erase(r);
    }
    for (auto& k : K) checkOne(w, k);
    MC_CHECK(w.db.size() == w.m.size(), "size", "size");
    mc::noteState(a + "|" + b + std::to_string(rm));
}
namespace
{
// says at run time what it holds
class Described : public NeoFOAM::CollectionMixin<DocA>
{
public:
    Described(Database& db, std::string name, std::string what) : CollectionMixin<DocA>(db, name), what_(std::move(what)) {}
    std::string type() const { return what_; }
private:
    std::string what_;
};
}
MC_SCENARIO(described, "collections that are stored under another name than their own and describe their type themselves: all pairs out of 5 names x own names, the key decides")
{
    static const std::vector<std::string> K = {"", " ", "a", "b", "ab"};
    Database db, other;
    std::string key[2], own[2], type[2];
    Collection* at[2];
    for (int i = 0; i < 2; ++i)
    {
        key[i] = K[static_cast<size_t>(choose(5, "key"))];
        own[i] = K[static_cast<size_t>(choose(5, "own name"))];
        type[i] = i ? "second" : "first";
        at[i] = &db.insert(key[i], Described(i ? other : db, own[i], type[i]));
    }
    MC_STEP("keys '", key[0], "', '", key[1], "', own names '", own[0], "', '", own[1], "'");
    bool one = key[0] == key[1];
    MC_CHECK((at[0] == at[1]) == one && db.size() == (one ? 1u : 2u), "insert-result", "two insertions under '", key[0], "' and '", key[1], "' leave ", db.size(), " collections");
    for (auto& k : K) MC_CHECK(db.contains(k) == (k == key[0] || k == key[1]), "membership", "contains('", k, "') after insertions under '", key[0], "' and '", key[1], "'");
    for (int i = 0; i < (one ? 1 : 2); ++i)
    {
        auto& c = db.at(key[i]);
        MC_CHECK(&c == at[i], "address", "collection '", key[i], "' moved");
        MC_CHECK(c.name() == own[i], "name", "the collection of name '", own[i], "' stored as '", key[i], "' calls itself '", c.name(), "'");
        MC_CHECK(c.type() == type[i] && db.at<Described>(key[i]).type() == type[i], "type", "the collection '", key[i], "' has the type ", c.type(), " instead of ", type[i]);
        MC_CHECK(&c.db() == (i ? &other : &db) && &static_cast<const Collection&>(c).db() == (i ? &other : &db), "database", "collection '", key[i], "' does not know its database");
    }
    MC_CHECK(db.remove(key[0]) && db.contains(key[1]) == !one && db.size() == (one ? 0u : 1u), "remove-result", "removal of '", key[0], "'");
    mc::noteState(mc::cat(key[0], "|", key[1], "|", own[0], "|", own[1]));
}
MC_SCENARIO(two_databases, "every history of up to 3 operations on each of two databases: neither sees the other")
{
    World w[2];
    int len = choose(4, "len");
    for (int i = 0; i < len; ++i)
    {
        int which = choose(2, "db");
        static const int ops[] = {0, 1, 3, 9, 10, 12, 15, 17};
        step(w[which], ops[choose(8, "op")]);
    }
    check(w[0]);
    check(w[1]);
    mc::noteState(str(w[0].m) + str(w[1].m));
}
