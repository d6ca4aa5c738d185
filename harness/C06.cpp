// Identity of documents: sequential histories, and every interleaving of creating threads.
#include "values.hpp"
#include "sched.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include <optional>
#include <set>
using namespace hv;
using mc::choose;
using NeoFOAM::Document;

namespace
{
bool accept(Dictionary) { return true; }
Document makeDoc(int kind, const Dictionary& shared)
{
    switch (kind)
    {
    case 0: return Document();
    case 1: return Document(Dictionary {});
    case 2: return Document(shared);
    default: return Document(shared, accept);
    }
}
void distinct(const std::vector<std::string>& ids, const char* what)
{
    std::set<std::string> s;
    for (auto& i : ids)
    {
        MC_CHECK(!i.empty(), "empty-id", what, ": a document has an empty id");
        MC_CHECK(s.insert(i).second, "duplicate-id", what, ": two documents share the id ", i);
    }
}
}

// the first choices of these bodies are made before threads exist (see sched.cpp)
MC_SCENARIO_ISOLATED(two_threads, "2 threads creating 1..2 (thorough: 3) documents each x all pairs of 4 kinds of construction x all schedules with up to 5 (thorough: 8) preemptions, program statics fresh")
{
    int k0 = choose(4, "kind0"), k1 = choose(4, "kind1");
    int n0 = 1 + choose(mc::thorough() ? 3 : 2, "count0"), n1 = 1 + choose(mc::thorough() ? 3 : 2, "count1");
    mc::setDeviationBound(mc::thorough() ? 8 : 5);
    bool before = choose(2, "one created before");
    Dictionary shared;
    shared.insert("name", std::string("n"));
    std::vector<std::string> a, b, all;
    if (before) all.push_back(Document().id());
    a.reserve(4);
    b.reserve(4);
    mcs::parallel(
        {[&]
         {
             for (int i = 0; i < n0; ++i) a.push_back(makeDoc(k0, shared).id());
         },
         [&]
         {
             for (int i = 0; i < n1; ++i) b.push_back(makeDoc(k1, shared).id());
         }}
    );
    all.insert(all.end(), a.begin(), a.end());
    all.insert(all.end(), b.begin(), b.end());
    all.push_back(Document().id());
    MC_CHECK(all.size() == size_t(n0 + n1 + 1 + before), "lost", "documents missing");
    distinct(all, "two threads");
    std::string st;
    for (auto& i : all) st += i + " ";
    mc::noteState(st);
}

MC_SCENARIO_ISOLATED(three_threads, "3 threads creating 1..2 documents each x 2 kinds of construction x all schedules with up to 3 (thorough: 5) preemptions")
{
    int k = choose(2, "kind"), n = 1 + choose(2, "count");
    mc::setDeviationBound(mc::thorough() ? 5 : 3);
    Dictionary shared;
    std::vector<std::string> r[3], all;
    for (auto& v : r) v.reserve(4);
    std::vector<std::function<void()>> tasks;
    for (int t = 0; t < 3; ++t)
        tasks.push_back(
            [&, t]
            {
                for (int i = 0; i < n; ++i) r[t].push_back(makeDoc(k, shared).id());
            }
        );
    mcs::parallel(tasks);
    for (auto& v : r) all.insert(all.end(), v.begin(), v.end());
    distinct(all, "three threads");
    std::string st;
    for (auto& i : all) st += i + " ";
    mc::noteState(st);
}

MC_SCENARIO_ISOLATED(threads_and_copies, "2 threads copying, editing and creating documents from a shared one x all pairs of 5 actions x all schedules with up to 3 (thorough: 5) preemptions")
{
    int k0 = choose(5, "action0"), k1 = choose(5, "action1");
    mc::setDeviationBound(mc::thorough() ? 5 : 3);
    const Document source {Dictionary {}};
    std::string sid = source.id();
    std::string got[2];
    std::vector<std::string> fresh[2];
    auto act = [&](int k, int me)
    {
        switch (k)
        {
        case 0: { Document c = source; got[me] = c.id(); fresh[me].push_back(Document().id()); break; }
        case 1: { Document c(source); c.insert("x", 1); got[me] = c.id(); break; }
        case 2: { Document c; fresh[me].push_back(c.id()); c = source; got[me] = c.id(); break; }
        case 3: { Dictionary d; d.insert("id", std::string("mine")); got[me] = Document(d).id() == "mine" ? sid : "other"; fresh[me].push_back(Document(Dictionary {}).id()); break; }
        default: { Document c = source; Document m = std::move(c); got[me] = m.id(); fresh[me].push_back(Document().id()); }
        }
    };
    mcs::parallel({[&] { act(k0, 0); }, [&] { act(k1, 1); }});
    for (auto& g : got) MC_CHECK(g == sid, "id-kept", "a copy's id is ", g, " instead of ", sid);
    std::vector<std::string> all {sid};
    for (auto& f : fresh) all.insert(all.end(), f.begin(), f.end());
    distinct(all, "threads with copies");
    mc::noteState(mc::cat(k0, k1, all.size()));
}

MC_SCENARIO(histories, "every history of up to 4 (thorough: 5) of 16 operations (4 constructions, with given id, copy, assign, move, edit, overwrite id, destroy) on three documents")
{
    std::optional<Document> d[3];
    std::string id[3];
    std::set<std::string> given; // ids chosen by the user
    std::set<std::string> fresh;
    Dictionary plain;
    plain.insert("name", std::string("n"));
    auto born = [&](int i, const char* what)
    {
        id[i] = d[i]->id();
        MC_CHECK(!id[i].empty(), "empty-id", what, ": empty id");
        MC_CHECK(!given.count(id[i]) && fresh.insert(id[i]).second, "duplicate-id", what, ": id ", id[i], " was given before");
    };
    int len = choose((mc::thorough() ? 5 : 4) + 1, "length");
    for (int s = 0; s < len; ++s)
    {
        int op = choose(16, "op");
        MC_STEP("op ", op);
        auto src = [&]
        {
            for (int i = 0; i < 3; ++i)
                if (d[i]) return i;
            return -1;
        };
        switch (op)
        {
        case 0: case 1: case 2: case 3: d[0].emplace(makeDoc(op, plain)); born(0, "construction"); break;
        case 4: case 5: case 6: case 7: d[1].emplace(makeDoc(op - 4, plain)); born(1, "construction"); break;
        case 8:
        {
            Dictionary g = plain;
            g.insert("id", std::string("mine"));
            given.insert("mine");
            d[2].emplace(g);
            id[2] = "mine";
            break;
        }
        case 9:
        case 10:
        {
            int i = src();
            if (i < 0) break;
            int j = (i + 1) % 3;
            if (op == 9) { Document c(*d[i]); d[j].emplace(c); }
            else if (d[j]) *d[j] = *d[i];
            else d[j].emplace(*d[i]);
            id[j] = id[i];
            break;
        }
        case 11:
        case 12:
        {
            int i = src();
            if (i < 0) break;
            int j = (i + 2) % 3;
            if (op == 11 || !d[j]) d[j].emplace(std::move(*d[i]));
            else *d[j] = std::move(*d[i]);
            id[j] = id[i];
            d[i].reset();
            break;
        }
        case 13:
            if (int i = src(); i >= 0)
            {
                d[i]->insert("name", 5);
                d[i]->insert("extra", plain);
                d[i]->remove("name");
            }
            break;
        case 14:
            if (int i = src(); i >= 0)
            {
                d[i]->insert("id", "renamed" + std::to_string(s));
                id[i] = "renamed" + std::to_string(s);
                given.insert(id[i]);
            }
            break;
        default:
            if (int i = src(); i >= 0) d[i].reset();
        }
        for (int i = 0; i < 3; ++i)
            if (d[i])
            {
                const Document& c = *d[i];
                MC_CHECK(c.id() == id[i], "id-kept", "document ", i, " has id ", c.id(), " instead of ", id[i]);
                MC_CHECK(c.get<std::string>("id") == id[i], "id-kept", "document ", i, " stores id ", c.get<std::string>("id"), " instead of ", id[i]);
            }
    }
    mc::noteState(mc::cat(fresh.size(), d[0].has_value(), d[1].has_value(), d[2].has_value(), id[0] == id[1], id[1] == id[2], given.size()));
}

MC_SCENARIO(given_ids, "12 given ids (empty, blank, alike to automatic ones, long, with zero bytes) x with and without validator x copies, moves, assignments and edits: kept to the letter")
{
    static const std::vector<std::string> K = {"", " ", "a", "A", "doc", "doc_", "doc_0", "doc_1", "doc_-1", std::string("a\0b", 3), std::string(200, 'x'), "\n"};
    const std::string& id = K[static_cast<size_t>(choose(12, "id"))];
    bool validator = choose(2, "validator");
    int use = choose(5, "use");
    Dictionary g;
    g.insert("id", id);
    g.insert("name", std::string("n"));
    Document d = validator ? Document(g, [](const Dictionary& x) { return x.contains("name"); }) : Document(g);
    auto check = [&](const Document& x, const char* what) { MC_CHECK(x.id() == id && x.get<std::string>("id") == id && x.keys().size() == 2, "id-kept", what, " has the id '", x.id(), "' instead of '", id, "'"); };
    MC_STEP("given id '", id, "' use ", use);
    check(d, "a document");
    MC_CHECK(d.validate(), "id-kept", "a document with the id '", id, "' is not valid");
    check(d, "a validated document");
    Document c(d), o;
    check(c, "a copy");
    if (use == 1) o = d, check(o, "an assigned document");
    if (use == 2) o = std::move(c), check(o, "a moved document");
    if (use == 3) d.insert("name", std::string("other")), check(d, "an edited document");
    if (use == 4)
    {
        d.insert("id", std::string("new"));
        check(c, "the copy of a renamed document");
        MC_CHECK(d.id() == "new", "id-kept", "a renamed document has the id ", d.id());
    }
    mc::noteState(mc::cat(id, validator, use));
}
MC_SCENARIO_ISOLATED(many, "70000 (thorough: 300000) documents in a row, kept or dropped, of each kind of construction: all ids different")
{
    int k = choose(4, "kind"), keep = choose(2, "keep");
    int n = mc::thorough() ? 300000 : 70000;
    Dictionary shared;
    std::set<std::string> seen;
    std::vector<Document> kept;
    for (int i = 0; i < n; ++i)
    {
        Document d = makeDoc(k, shared);
        MC_CHECK(seen.insert(d.id()).second, "duplicate-id", "document ", i, " gets the id ", d.id(), " again");
        if (keep && i % 16 == 0) kept.push_back(d);
        mc::countStep();
    }
    mc::noteState(mc::cat(k, keep));
}
