#include "testcoll.hpp"
using namespace hv;
using namespace tc;
using mc::choose;

namespace
{
struct MDoc
{
    int value;
    bool extra = false;
    bool operator==(const MDoc&) const = default;
};
using MC_ = std::map<std::string, MDoc>;
std::string str(const MC_& m)
{
    std::string s = "{";
    for (auto& [k, v] : m) s += k + "=" + std::to_string(v.value) + (v.extra ? "+" : "") + " ";
    return s + "}";
}
template<typename F>
std::vector<std::string> expected(const MC_& m, F&& f)
{
    std::vector<std::string> r;
    for (auto& [k, v] : m)
        if (f(k, v)) r.push_back(k);
    return r;
}
std::vector<std::string> sorted(std::vector<std::string> v)
{
    std::sort(v.begin(), v.end());
    return v;
}
template<typename C>
void checkFind(const C& c, const MC_& m, const char* who)
{
    struct P
    {
        const char* n;
        std::function<bool(const Document&)> f;
        std::function<bool(const std::string&, const MDoc&)> g;
    };
    static const std::vector<P> ps = {
        {"all", [](const Document&) { return true; }, [](const std::string&, const MDoc&) { return true; }},
        {"none", [](const Document&) { return false; }, [](const std::string&, const MDoc&) { return false; }},
        {"value==1", [](const Document& d) { return d.get<int>("value") == 1; }, [](const std::string&, const MDoc& d) { return d.value == 1; }},
        {"value==2", [](const Document& d) { return d.get<int>("value") == 2; }, [](const std::string&, const MDoc& d) { return d.value == 2; }},
        {"value odd", [](const Document& d) { return d.get<int>("value") % 2 != 0; }, [](const std::string&, const MDoc& d) { return d.value % 2 != 0; }},
        {"extra", [](const Document& d) { return d.contains("extra"); }, [](const std::string&, const MDoc& d) { return d.extra; }},
        {"id d1", [](const Document& d) { return d.id() == "d1"; }, [](const std::string& k, const MDoc&) { return k == "d1"; }},
        {"not id d1", [](const Document& d) { return d.id() != "d1"; }, [](const std::string& k, const MDoc&) { return k != "d1"; }},
    };
    for (auto& p : ps)
    {
        auto got = c.find([&](const Document& d) { return p.f(d); });
        auto want = expected(m, p.g);
        MC_CHECK(sorted(got) == want, "find", who, ": find(", p.n, ") gives ", got.size(), " ids instead of ", want.size(), " for ", str(m));
    }
    auto none = c.find([&](const Document&) { return false; });
    MC_CHECK(none.empty(), "find", who, ": nothing");
}
template<typename D, typename C>
void checkDocs(C& c, const MC_& m, const char* who)
{
    MC_CHECK(c.size() == m.size(), "size", who, ": size ", c.size(), " instead of ", str(m));
    for (auto& [k, v] : m)
    {
        const C& cc = c;
        Document* d = nullptr;
        try
        {
            d = &c.doc(k);
        }
        catch (const std::exception&)
        {
            mc::fail("retrieve", std::string(who) + ": document '" + k + "' cannot be retrieved");
        }
        MC_CHECK(d == &cc.doc(k), "retrieve", who, ": const and mutable documents differ");
        MC_CHECK(d->id() == k, "doc-id", who, ": '", k, "' has id ", d->id());
        MC_CHECK(d->get<int>("value") == v.value && d->contains("extra") == v.extra, "doc-content", who, ": '", k, "' holds ", d->get<int>("value"), " in ", str(m));
        MC_CHECK(d->keys().size() == 2u + v.extra, "doc-content", who, ": '", k, "' has ", d->keys().size(), " entries");
        MC_CHECK(d->validate(), "doc-content", who, ": invalid");
    }
    for (auto id : {"absent", "D1", "d1 "})
        if (!m.count(id)) mc::expectThrow<std::out_of_range>("absent-doc", [&] { (void)c.doc(id); }, std::string(who) + ": absent id");
    checkFind(c, m, who);
}
void checkColl(CollA& c, const MC_& m, const char* who)
{
    auto ks = c.sortedKeys();
    std::vector<std::string> want;
    for (auto& [k, v] : m) want.push_back(k);
    MC_CHECK(ks == want, "sortedKeys", who, ": ", ks.size(), " keys instead of ", str(m));
    checkDocs<DocA>(c, m, who);
    for (auto& [k, v] : m) MC_CHECK(c.contains(k), "membership", who, ": '", k, "'");
}

struct World
{
    Database db;
    std::unique_ptr<CollA> own;
    std::unique_ptr<Collection> erased;
    CollA* c = nullptr;
    MC_ m;
    std::map<std::string, Document*> held;
    std::string automatic;
    void use(int form)
    {
        if (form == 0)
        {
            own = std::make_unique<CollA>(db, "coll");
            c = own.get();
        }
        else if (form == 1)
        {
            erased = std::make_unique<Collection>(CollA(db, "coll"));
            c = &erased->as<CollA>();
        }
        else c = &CollA::instance(db, "coll");
    }
};
void insert(World& w, const std::string& id, int value)
{
    DocA d(mkDoc(id, value));
    std::string k = d.id();
    MC_CHECK(id.empty() || k == id, "doc-id", "document built with id '", id, "' has id ", k);
    bool fresh = w.m.count(k) == 0;
    bool r = w.c->insert(d);
    MC_CHECK(r == fresh, "insert-result", "insert of '", k, "' reports ", r, " in ", str(w.m));
    if (fresh) w.m[k] = {value};
    if (id.empty()) w.automatic = k;
    d.doc().insert("extra", 1); // the caller's document is not the stored one
}
const std::string IDS[] = {"d1", "d2"};
constexpr int NOPS = 14;
void step(World& w, int op)
{
    switch (op)
    {
    case 0: case 1: case 2: case 3:
        MC_STEP("insert ", IDS[op / 2], " value ", 1 + op % 2);
        insert(w, IDS[op / 2], 1 + op % 2);
        break;
    case 4: MC_STEP("insert automatic id"); insert(w, "", 2); break;
    case 5:
        MC_STEP("edit d1 value=2");
        if (!w.m.count("d1")) mc::prune();
        w.c->doc("d1").get<int>("value") = 2;
        w.m["d1"].value = 2;
        break;
    case 6:
        MC_STEP("edit d2 insert extra");
        if (!w.m.count("d2")) mc::prune();
        w.c->doc("d2").insert("extra", 1);
        w.m["d2"].extra = true;
        break;
    case 7:
        MC_STEP("hold all");
        for (auto& [k, v] : w.m)
        {
            auto it = w.held.find(k);
            Document* d = &w.c->doc(k);
            MC_CHECK(it == w.held.end() || it->second == d, "doc-moved", "document '", k, "' moved");
            w.held[k] = d;
        }
        break;
    case 8:
        MC_STEP("20 further documents");
        for (int i = 0; i < 20; ++i) insert(w, "z" + std::to_string(i), 3);
        break;
    case 9:
        MC_STEP("edit through held d1");
        if (!w.held.count("d1")) mc::prune();
        w.held["d1"]->get<int>("value") = 5;
        w.m["d1"].value = 5;
        break;
    case 10: MC_STEP("observe"); checkFind(*w.c, w.m, "collection"); break;
    case 11:
    {
        MC_STEP("collection moved into a new one");
        if (w.own)
        {
            w.own = std::make_unique<CollA>(std::move(*w.own));
            w.c = w.own.get();
        }
        else if (w.erased)
        {
            w.erased = std::make_unique<Collection>(std::move(*w.erased));
            w.c = &w.erased->as<CollA>();
        }
        else mc::prune();
        break;
    }
    case 12:
    {
        MC_STEP("copy of a document edited");
        if (!w.m.count("d1")) mc::prune();
        Document copy = w.c->doc("d1");
        copy.insert("extra", 2);
        copy.get<int>("value") = 9;
        break;
    }
    case 13:
    {
        MC_STEP("failed lookups");
        mc::expectThrow<std::out_of_range>("absent-doc", [&] { (void)w.c->doc("nothing"); }, "absent id");
        if (w.m.count("d2")) mc::expectThrow<std::bad_any_cast>("doc-type", [&] { (void)w.c->doc("d2").get<std::string>("value"); }, "mistyped value");
        break;
    }
    }
}
void finish(World& w)
{
    mc::noteState(str(w.automatic.empty() ? w.m : MC_ {}) + std::to_string(w.m.size()) + std::to_string(w.held.size()));
    for (auto& [k, d] : w.held) MC_CHECK(d == &w.c->doc(k), "doc-moved", "the held reference to '", k, "' no longer refers to the stored document");
    checkColl(*w.c, w.m, "collection");
    const CollA& cc = *w.c;
    MC_CHECK(cc.name() == "coll" && w.c->type() == "ADocument", "collection-identity", "name ", cc.name(), " type ", w.c->type());
    MC_CHECK(&w.c->db() == &w.db && &cc.db() == &w.db, "collection-identity", "database");
    if (w.erased)
    {
        checkDocs<DocA>(*w.erased, w.m, "type-erased collection");
        MC_CHECK(w.erased->name() == "coll" && w.erased->type() == "ADocument" && &w.erased->db() == &w.db, "collection-identity", "type-erased");
    }
    else if (!w.own)
    {
        checkDocs<DocA>(w.db.at("coll"), w.m, "database collection");
        MC_CHECK(&w.db.at<CollA>("coll") == w.c, "collection-identity", "recovered collection");
    }
}
}

MC_SCENARIO(histories, "every history of up to 4 (thorough: 5) of 14 operations on a collection held directly, type-erased, or in a database")
{
    World w;
    w.use(choose(3, "form"));
    int len = choose((mc::thorough() ? 5 : 4) + 1, "len");
    for (int i = 0; i < len; ++i) step(w, choose(NOPS, "op"));
    finish(w);
}
MC_SCENARIO(refusal, "collections of 1..6 documents x re-insertion under every existing id by a document of the same or another value, before and after edits: the first stays")
{
    World w;
    w.use(choose(3, "form"));
    int n = 1 + choose(6, "n");
    for (int i = 0; i < n; ++i) insert(w, "id" + std::to_string(i), i);
    std::string k = "id" + std::to_string(choose(n, "victim"));
    if (choose(2, "edit first"))
    {
        w.c->doc(k).insert("extra", 1);
        w.m[k].extra = true;
    }
    int before = choose(3, "value");
    Document* d = &w.c->doc(k);
    MC_STEP("reinsert ", k);
    insert(w, k, before == 0 ? w.m[k].value : 40 + before);
    MC_CHECK(d == &w.c->doc(k), "doc-moved", "refused insertion moved the document");
    insert(w, "fresh", 1);
    finish(w);
}
MC_SCENARIO(searches, "every assignment of 3 values to 0..5 documents x 8 predicates; results agree with evaluating the predicate on each")
{
    World w;
    w.use(choose(2, "form"));
    int n = choose(6, "n");
    for (int i = 0; i < n; ++i)
    {
        int v = choose(3, "value");
        std::string id = "d" + std::to_string(i);
        insert(w, id, v);
        if (v == 2)
        {
            w.c->doc(id).insert("extra", 1);
            w.m[id].extra = true;
        }
    }
    finish(w);
}
MC_SCENARIO(ids, "all ordered pairs out of 12 tricky ids: different ids never collide, equal ids always do, keys sorted")
{
    static const std::vector<std::string> K = {"", " ", "a", "A", "a ", "doc_0", "doc_1", "doc_10", "10", "9", std::string("a\0", 2), std::string(64, 'a')};
    World w;
    w.use(choose(3, "form"));
    auto mk = [](const std::string& id, int v)
    {
        Dictionary d;
        d.insert("value", v);
        d.insert("id", id);
        return DocA(Document(d));
    };
    int i = choose(static_cast<int>(K.size()), "a"), j = choose(static_cast<int>(K.size()), "b");
    MC_STEP("ids ", i, " ", j);
    MC_CHECK(w.c->insert(mk(K[static_cast<size_t>(i)], 1)), "insert-result", "first");
    MC_CHECK(w.c->insert(mk(K[static_cast<size_t>(j)], 2)) == (i != j), "insert-result", "second");
    w.m[K[static_cast<size_t>(i)]] = {1};
    if (i != j) w.m[K[static_cast<size_t>(j)]] = {2};
    finish(w);
}
MC_SCENARIO(large, "collections of 5 sizes from 63 to 1500 documents, with given or automatic ids: every document and every match of 8 predicates found")
{
    static const int SIZE[] = {63, 130, 260, 700, 1500};
    World w;
    w.use(choose(2, "form"));
    int n = SIZE[choose(mc::thorough() ? 5 : 4, "size")];
    bool automatic = choose(2, "automatic ids");
    for (int i = 0; i < n; ++i)
    {
        insert(w, automatic ? "" : "id" + std::to_string(i), i % 5);
        mc::countStep();
    }
    MC_STEP(n, " documents");
    finish(w);
}
MC_SCENARIO(growth, "collections growing to every size 1..60 (thorough: 200): all references taken along the way stay valid, all documents found")
{
    World w;
    w.use(choose(3, "form"));
    int n = 1 + choose(mc::thorough() ? 200 : 60, "size");
    for (int i = 0; i < n; ++i)
    {
        std::string id = "id" + std::to_string(i);
        insert(w, id, i);
        w.held[id] = &w.c->doc(id);
        mc::countStep();
    }
    for (auto& [k, d] : w.held) d->get<int>("value") += 100;
    for (auto& [k, d] : w.m) d.value += 100;
    finish(w);
}
MC_SCENARIO(bare, "documents that hold nothing but their id, or the id and one nested entry, in every mix of up to 4: all found, each predicate evaluated on each")
{
    Database db;
    CollA c(db, "bare");
    int n = choose(5, "n");
    std::map<std::string, int> m;
    for (int i = 0; i < n; ++i)
    {
        int k = choose(4, "content");
        std::string id = "b" + std::to_string(i);
        Dictionary d;
        if (k != 3) d.insert("id", id);
        if (k == 1) d.insert("sub", Dictionary());
        if (k == 2) d.insert("", 1);
        DocA doc {Document(d)};
        if (k == 3) id = doc.id();
        MC_CHECK(doc.id() == id && c.insert(doc), "insert-result", "insert of '", id, "'");
        m[id] = k;
    }
    MC_STEP(n, " documents");
    MC_CHECK(c.size() == m.size(), "size", "size ", c.size());
    std::vector<std::string> seen;
    auto none = c.find([&](const Document& d) { seen.push_back(d.id()); return false; });
    std::vector<std::string> ids;
    for (auto& [k, v] : m) ids.push_back(k);
    MC_CHECK(none.empty() && sorted(seen) == ids, "find", "the predicate sees ", seen.size(), " documents instead of ", m.size());
    MC_CHECK(sorted(c.find([](const Document&) { return true; })) == ids, "find", "all");
    for (int k = 1; k < 3; ++k)
    {
        std::vector<std::string> want;
        for (auto& [id, v] : m)
            if (v == k) want.push_back(id);
        MC_CHECK(sorted(c.find([k](const Document& d) { return d.contains(k == 1 ? "sub" : ""); })) == want, "find", "kind ", k);
    }
    for (auto& id : ids) MC_CHECK(c.doc(id).id() == id, "retrieve", "'", id, "'");
    MC_CHECK(c.sortedKeys() == ids, "sortedKeys", "keys");
    mc::noteState(mc::cat(n));
}
