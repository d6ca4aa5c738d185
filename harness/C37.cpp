#include "testcoll.hpp"
#include "NeoFOAM/core/input.hpp"
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
#include <memory>
#include <stdexcept>
using namespace hv;
using mc::choose;
using NeoFOAM::Input;
using NeoFOAM::StencilDataBase;

namespace
{
// model: a tree with value semantics
struct Tree
{
    std::map<std::string, Val> leaf;
    std::map<std::string, Tree> sub;
    bool has(const std::string& k) const { return leaf.count(k) || sub.count(k); }
    void setLeaf(const std::string& k, Val v)
    {
        sub.erase(k);
        leaf[k] = v;
    }
    void setSub(const std::string& k, const Tree& t)
    {
        Tree copy = t;
        leaf.erase(k);
        sub[k] = copy;
    }
    void erase(const std::string& k)
    {
        leaf.erase(k);
        sub.erase(k);
    }
};
std::string str(const Tree& t)
{
    std::string s = "{";
    for (auto& [k, v] : t.leaf) s += k + "=" + hv::str(v) + " ";
    for (auto& [k, v] : t.sub) s += k + str(v) + " ";
    return s + "}";
}
const std::vector<std::string> UNI = {"a", "b", "x", "y", "z", "w", "s", "self", "absent", ""};

void checkTree(Dictionary& d, const Tree& t, const std::string& who)
{
    const Dictionary& c = d;
    std::vector<std::string> want;
    for (auto& [k, v] : t.leaf) want.push_back(k);
    for (auto& [k, v] : t.sub) want.push_back(k);
    std::sort(want.begin(), want.end());
    auto ks = c.keys();
    std::sort(ks.begin(), ks.end());
    MC_CHECK(ks == want, "nested-keys", who, ": holds ", ks.size(), " keys, the model ", str(t));
    MC_CHECK(c.empty() == want.empty(), "nested-empty", who, ": empty() is ", c.empty(), " for ", str(t));
    for (auto& k : UNI)
    {
        MC_CHECK(c.contains(k) == t.has(k), "nested-membership", who, ": contains('", k, "')");
        MC_CHECK(c.isDict(k) == (t.sub.count(k) > 0), "isDict", who, ": isDict('", k, "') is ", c.isDict(k), " for ", str(t));
    }
    for (auto& [k, v] : t.leaf)
    {
        MC_CHECK(holds(c[k], v), "nested-value", who, ": '", k, "' is not ", hv::str(v));
        mc::expectThrow<std::bad_any_cast>("subDict-of-value", [&] { (void)d.subDict(k); }, who + ": subDict('" + k + "') of a plain value");
        mc::expectThrow<std::bad_any_cast>("subDict-of-value", [&] { (void)c.subDict(k); }, who + ": const subDict('" + k + "') of a plain value");
    }
    for (auto& [k, v] : t.sub)
    {
        Dictionary& s = d.subDict(k);
        MC_CHECK(&s == &c.subDict(k) && &s == &d.get<Dictionary>(k) && &s == &c.get<Dictionary>(k) && &s == std::any_cast<Dictionary>(&d[k]), "sub-identity", who, ": the ways to reach '", k, "' give different objects");
        checkTree(s, v, who + "/" + k);
    }
    mc::expectThrow<std::out_of_range>("subDict-absent", [&] { (void)d.subDict("absent"); }, who + ": subDict of an absent key");
    mc::expectThrow<std::out_of_range>("subDict-absent", [&] { (void)c.subDict("absent"); }, who + ": const subDict of an absent key");
}

}
namespace
{
// a value whose copies fail from a given one on
struct Brittle
{
    static inline int left = 1000;
    int n = 0;
    explicit Brittle(int v) : n(v) {}
    Brittle(const Brittle& o) : n(o.n)
    {
        if (left-- <= 0) throw std::runtime_error("no copy");
    }
    Brittle(Brittle&& o) noexcept : n(o.n) {}
    Brittle& operator=(const Brittle&) = default;
    bool operator==(const Brittle& o) const { return n == o.n; }
};
}
MC_SCENARIO(dictionary_copies, "insertion, overwriting, copying, assignment and bulk construction with a value whose first, second, .. copy fails, for every such copy: the error reaches the caller and every dictionary holds what it held before")
{
    int op = choose(7, "operation"), after = choose(6, "copies that succeed"), others = choose(3, "other entries");
    Brittle::left = 1000;
    Dictionary d, o;
    Model m;
    for (int i = 0; i < others; ++i)
    {
        d.insert(mc::cat("e", i), i);
        m[mc::cat("e", i)] = {INT, i};
    }
    Dictionary plain = d;
    bool stored = op == 1 || op >= 3;
    if (stored) d.insert("x", Brittle(1));
    if (op == 5) o.insert("kept", 5);
    if (op == 2)
    {
        d.insert("x", 7);
        m["x"] = {INT, 7};
    }
    std::any value = Brittle(2);
    MC_STEP("operation ", op, " failing after ", after, " copies");
    Brittle::left = after;
    bool failed = false;
    std::unique_ptr<Dictionary> made;
    try
    {
        switch (op)
        {
        case 0:
        case 1:
        case 2: d.insert("x", value); break;
        case 3: made = std::make_unique<Dictionary>(d); break;
        case 4: made = std::make_unique<Dictionary>(static_cast<const Dictionary&>(d).getMap()); break;
        case 5: o = d; break;
        case 6: d["x"] = value; break;
        }
    }
    catch (const std::runtime_error&)
    {
        failed = true;
    }
    Brittle::left = 1000;
    auto check = [&](Dictionary& w, int x, const char* who)
    {
        const Dictionary& c = w;
        size_t want = m.size() + (x && !m.count("x") ? 1 : 0);
        MC_CHECK(c.keys().size() == want && c.getMap().size() == want, "map-size", who, ": ", c.keys().size(), " entries instead of ", want);
        for (auto& [k, v] : m)
            if (k != "x" || !x) MC_CHECK(c.contains(k) && holds(c[k], v), "value", who, ": entry ", k);
        MC_CHECK(c.contains("x") == (x != 0 || m.count("x") > 0), "membership", who, ": contains('x') is ", c.contains("x"));
        if (x) MC_CHECK(c.get<Brittle>("x").n == x, "value", who, ": x is ", c.get<Brittle>("x").n, " instead of ", x);
    };
    if (op < 3 || op == 6) check(d, failed ? (stored ? 1 : 0) : 2, failed ? "after a failed write" : "after a write");
    else check(d, 1, "source");
    if (op == 3 || op == 4)
    {
        MC_CHECK(failed == !made, "copy", "copy");
        if (made) check(*made, 1, "copy");
    }
    if (op == 5)
    {
        if (failed) MC_CHECK(o.keys().size() == 1 && o.get<int>("kept") == 5, "value", "assigned to although the copy failed");
        else check(o, 1, "assigned");
    }
    MC_CHECK(failed || after > 0, "error-lost", "the failing copy was not reported");
    checkDict(plain, others || op == 2 ? [&] { Model p = m; p.erase("x"); return p; }() : m, {"x", "e0", "e1"}, "copy taken before");
    d.insert("x", 3);
    MC_CHECK(d.get<int>("x") == 3, "value", "later insertion");
    mc::noteState(mc::cat(op, after, others, failed));
}

MC_SCENARIO(own_branches, "in a three-level dictionary the stored object of every level (and a leaf) is inserted or assigned, under an existing or a new key, into every level, by reference to the stored entry or as a typed copy: the target holds what the branch held at that moment, everything else is unchanged")
{
    // P { a { b { x 2 } x 1 } x 0 }
    Tree t2;
    t2.setLeaf("x", {INT, 2});
    Tree t1;
    t1.setLeaf("x", {INT, 1});
    t1.setSub("b", t2);
    Tree t0;
    t0.setLeaf("x", {INT, 0});
    t0.setSub("a", t1);
    Dictionary d2, d1, p;
    d2.insert("x", 2);
    d1.insert("x", 1);
    d1.insert("b", d2);
    p.insert("x", 0);
    p.insert("a", d1);
    int what = choose(4, "what: a, a/b, a/x, a/b/x"), into = choose(3, "into level"), key = choose(4, "key"), way = choose(3, "way");
    static const char* K[] = {"a", "b", "x", "new"};
    std::string k = K[key];
    Dictionary& a = p.subDict("a");
    Dictionary& b = a.subDict("b");
    std::any& src = what == 0 ? p["a"] : what == 1 ? a["b"] : what == 2 ? a["x"] : b["x"];
    Dictionary& dst = into == 0 ? p : into == 1 ? a : b;
    Tree want = t0;
    Tree& wd = into == 0 ? want : into == 1 ? want.sub["a"] : want.sub["a"].sub["b"];
    Tree snapshot = what == 0 ? t1 : t2;
    Val leaf {INT, what == 2 ? 1 : 2};
    if (what < 2) wd.setSub(k, snapshot);
    else wd.setLeaf(k, leaf);
    MC_STEP("branch ", what, " into level ", into, " as '", k, "' way ", way);
    if (way == 0) dst.insert(k, src);
    else if (way == 1)
    {
        if (what < 2) dst.insert(k, std::any_cast<Dictionary&>(src));
        else dst.insert(k, std::any_cast<int&>(src));
    }
    else
    {
        if (!dst.contains(k)) mc::prune();
        dst[k] = src;
    }
    checkTree(p, want, "P");
    // and the stored copy is independent of the branch it came from
    Dictionary* again = &p;
    Tree* wt = &want;
    for (int i = 0; i < into && again->isDict(i == 0 ? "a" : "b"); ++i)
    {
        again = &again->subDict(i == 0 ? "a" : "b");
        wt = &wt->sub[i == 0 ? "a" : "b"];
    }
    if (again->isDict(k))
    {
        again->subDict(k).insert("y", 9);
        wt->sub[k].setLeaf("y", {INT, 9});
        checkTree(p, want, "P after an edit of the copy");
    }
    mc::noteState(mc::cat(what, into, key, way));
}

namespace
{
// runs f with copies of Brittle failing from the one after `copies`; returns whether it failed
template<typename F>
bool fails(int copies, F&& f)
{
    Brittle::left = copies;
    bool failed = false;
    try
    {
        f();
    }
    catch (const std::runtime_error&)
    {
        failed = true;
    }
    Brittle::left = 1000;
    return failed;
}
}
MC_SCENARIO(token_copies, "token lists of 0..5 tokens at every reading position: insertion (with and without room), assignment, copying, construction from a vector, front removal and sequential reading of a value whose first, second, .. copy fails: the error reaches the caller, the list and its reading position are as before")
{
    int n = choose(6, "tokens"), pos = choose(n + 1, "position"), op = choose(7, "operation"), after = choose(n + 3, "copies that succeed");
    auto value = [](int i) { return 10 + i; };
    auto check = [&](TokenList t, int size, int at, int first, const char* who)
    {
        MC_CHECK(t.size() == size_t(size), "token-count", who, ": ", t.size(), " tokens instead of ", size);
        for (int i = 0; i < size; ++i) MC_CHECK(t.get<Brittle>(size_t(i)).n == value(first + i), "token-value", who, ": token ", i);
        for (int i = at; i < size; ++i) MC_CHECK(t.next<Brittle>().n == value(first + i), "token-position", who, ": the reader does not go on at ", at);
        mc::expectThrow<std::out_of_range>("token-end", [&] { (void)t.next<Brittle>(); }, std::string(who) + ": reading past the end");
    };
    TokenList t;
    for (int i = 0; i < n; ++i) t.insert(Brittle(value(i)));
    for (int i = 0; i < pos; ++i) (void)t.next<Brittle>();
    MC_STEP(n, " tokens at ", pos, " operation ", op, " failing after ", after, " copies");
    std::any extra = Brittle(value(n));
    bool failed = false;
    switch (op)
    {
    case 0:
    case 1:
        if (op == 1) t.tokens().reserve(20);
        failed = fails(after, [&] { t.insert(extra); });
        check(t, failed ? n : n + 1, pos, 0, "after an insertion");
        break;
    case 2:
    {
        TokenList o;
        o.insert(Brittle(value(0)));
        failed = fails(after, [&] { o = t; });
        if (failed) check(o, 1, 0, 0, "assigned to although the copy failed");
        else check(o, n, pos, 0, "assigned");
        check(t, n, pos, 0, "source");
        break;
    }
    case 3:
    {
        std::unique_ptr<TokenList> c;
        failed = fails(after, [&] { c = std::make_unique<TokenList>(t); });
        if (c) check(*c, n, pos, 0, "copy");
        check(t, n, pos, 0, "source");
        break;
    }
    case 4:
    {
        std::unique_ptr<TokenList> c;
        const std::vector<std::any> v(t.tokens());
        failed = fails(after, [&] { c = std::make_unique<TokenList>(v, size_t(pos)); });
        if (c) check(*c, n, pos, 0, "built from a vector");
        break;
    }
    case 5:
    {
        if (n == 0) mc::prune();
        int got = -1;
        failed = fails(after, [&] { got = t.popFront<Brittle>().n; });
        if (failed) check(t, n, pos, 0, "after a failed removal");
        else
        {
            MC_CHECK(got == value(0), "token-value", "front is ", got);
            check(t, n - 1, pos > 0 ? pos - 1 : 0, 1, "after a removal");
        }
        break;
    }
    case 6:
    {
        if (pos == n) mc::prune();
        int got = -1;
        failed = fails(after, [&] { got = static_cast<const TokenList&>(t).next<Brittle>().n; });
        if (failed) check(t, n, pos, 0, "after a failed read");
        else
        {
            MC_CHECK(got == value(pos), "token-value", "next is ", got);
            check(t, n, pos + 1, 0, "after a read");
        }
        break;
    }
    }
    mc::noteState(mc::cat(n, pos, op, after, failed));
}
MC_SCENARIO(document_copies, "documents, collections and databases with a value whose first, second, .. copy fails, or a validator or collection constructor that fails: construction, copying, insertion into a document or a collection, creation of a collection; what fails leaves no trace and can be repeated")
{
    using namespace tc;
    int op = choose(6, "operation"), after = choose(6, "copies that succeed"), before = choose(3, "documents before");
    Database db;
    CollA& col = CollA::instance(db, "c");
    for (int i = 0; i < before; ++i) col.insert(DocA(mkDoc(mc::cat("d", i), i)));
    Dictionary content;
    content.insert("value", 7);
    content.insert("id", std::string("mine"));
    content.insert("part", Brittle(3));
    Document doc(content);
    MC_STEP("operation ", op, " failing after ", after, " copies with ", before, " documents");
    bool failed = false;
    auto intact = [&](const Document& d, const char* who)
    {
        MC_CHECK(d.keys().size() == 3 && d.get<int>("value") == 7 && d.get<Brittle>("part").n == 3 && d.id() == "mine", "document", who, ": changed");
    };
    auto collection = [&](bool with)
    {
        MC_CHECK(col.size() == size_t(before) + with && col.sortedKeys().size() == col.size() && col.find([](const Document&) { return true; }).size() == col.size(), "collection", "size ", col.size());
        MC_CHECK(col.contains("mine") == with, "collection", "contains reports ", !with);
        for (int i = 0; i < before; ++i) MC_CHECK(col.doc(mc::cat("d", i)).get<int>("value") == i, "collection", "document ", i);
        if (with) intact(col.doc("mine"), "stored");
        else mc::expectThrow<std::out_of_range>("collection", [&] { (void)col.doc("mine"); }, "the document that was not stored");
        MC_CHECK(db.size() == 1 && db.at("c").size() == col.size(), "database", "size ", db.size());
    };
    switch (op)
    {
    case 0:
    {
        std::unique_ptr<Document> made;
        failed = fails(after, [&] { made = std::make_unique<Document>(content); });
        if (made) intact(*made, "constructed");
        break;
    }
    case 1:
    {
        std::unique_ptr<Document> made;
        failed = fails(after, [&] { made = std::make_unique<Document>(doc); });
        if (made) intact(*made, "copy");
        break;
    }
    case 2:
    {
        std::any more = Brittle(4);
        failed = fails(after, [&] { doc.insert("more", more); });
        MC_CHECK(doc.contains("more") == !failed, "document", "an insertion that failed: ", failed, ", entry there: ", doc.contains("more"));
        if (failed) intact(doc, "after a failed insertion");
        else MC_CHECK(doc.get<Brittle>("more").n == 4, "document", "the inserted value");
        if (!failed) doc.remove("more");
        break;
    }
    case 3:
    {
        DocA d(doc);
        failed = fails(after, [&] { col.insert(d); });
        collection(!failed);
        if (failed) MC_CHECK(col.insert(d), "collection", "the insertion can not be repeated");
        collection(true);
        break;
    }
    case 4:
    {
        int called = 0;
        auto validator = [&](const Document&) -> bool { if (called++ < after) return true; throw std::runtime_error("validator"); };
        std::unique_ptr<Document> made;
        failed = fails(1000, [&] { made = std::make_unique<Document>(content, validator); });
        MC_CHECK(failed == !made, "document", "construction and validator disagree");
        if (made)
        {
            intact(*made, "constructed");
            bool again = fails(1000, [&] { made->validate(); });
            MC_CHECK(again == (called > after), "document", "validation result");
            intact(*made, "validated");
        }
        else MC_CHECK(after == 0, "document", "refused although the validator agreed");
        break;
    }
    case 5:
    {
        int seen = 0;
        bool lost = fails(1000, [&] { (void)col.find([&](const Document&) -> bool { if (seen++ < after) return true; throw std::runtime_error("predicate"); }); });
        MC_CHECK(lost == (before > after), "find", "a failing predicate is reported: ", lost, " with ", before, " documents, failing at ", after);
        collection(false);
        break;
    }
    }
    if (op != 2) intact(doc, "source");
    MC_CHECK(content.keys().size() == 3 && content.get<Brittle>("part").n == 3, "document", "the caller's dictionary changed");
    if (op != 3) collection(false);
    mc::noteState(mc::cat(op, after, before, failed));
}
namespace
{
template<int>
struct BrokenColl : tc::CollA
{
    BrokenColl(NeoFOAM::Database& db, std::string name) : tc::CollA(db, name) { throw std::runtime_error("no collection"); }
};
struct Part : NeoFOAM::RuntimeSelectionFactory<Part, NeoFOAM::Parameters<int>>
{
    static std::string name() { return "Part"; }
    virtual ~Part() = default;
    virtual int get() const = 0;
};
int g_fail = -1, g_made = 0;
template<int N>
struct PartN : Part::Register<PartN<N>>
{
    int v;
    PartN(int x) : v(x)
    {
        ++g_made;
        if (x == g_fail) throw std::runtime_error("no part");
    }
    static std::string name() { return mc::cat("part", N); }
    static std::string doc() { return "doc"; }
    static std::string schema() { return "none"; }
    int get() const override { return 100 * N + v; }
};
template struct PartN<1>;
template struct PartN<2>;
// selects the parts it consists of itself, among them one of its own class
struct Composite : Part::Register<Composite>
{
    std::unique_ptr<Part> inner;
    int v;
    Composite(int x) : inner(Part::create(x > 0 ? "composite" : "part1", x > 0 ? x - 1 : 7)), v(x) {}
    static std::string name() { return "composite"; }
    static std::string doc() { return "doc"; }
    static std::string schema() { return "none"; }
    int get() const override { return inner->get() + 1000; }
};
struct Setting
{
    static inline int fail = 0, calls = 0;
    int v = 0;
    static Setting from(int v)
    {
        if (calls++ < fail) throw std::runtime_error("not now");
        return {v};
    }
    static Setting read(const Dictionary& d) { return from(d.get<int>("v")); }
    static Setting read(const TokenList& t) { return from(t.next<int>()); }
};
}
MC_SCENARIO(failing_objects, "collection constructors, factory-made classes, cached stencils and readers of user input that fail the first 0..2 times: nothing is left behind, every repetition behaves as a first attempt")
{
    using namespace tc;
    int what = choose(5, "what"), times = choose(3, "failures"), other = choose(2, "other content");
    MC_STEP("object ", what, " fails ", times, " times");
    if (what == 0)
    {
        Database db;
        if (other) CollA::instance(db, "other").insert(DocA(mkDoc("d", 1)));
        for (int i = 0; i < times; ++i)
        {
            MC_CHECK(fails(1000, [&] { db.insert("x", BrokenColl<0>(db, "x")); }), "error-lost", "the failure was not reported");
            MC_CHECK(db.size() == size_t(other) && !db.contains("x"), "database", "a collection that could not be made is there");
        }
        CollB::instance(db, "x").insert(DocB(mkDoc("e", 2)));
        MC_CHECK(db.size() == size_t(other + 1) && db.at("x").doc("e").get<int>("value") == 2, "database", "the later collection");
    }
    else if (what == 1)
    {
        for (int i = 0; i < times; ++i)
        {
            g_fail = 5;
            MC_CHECK(fails(1000, [&] { (void)Part::create("part1", 5); }), "error-lost", "the failure was not reported");
            g_fail = -1;
            MC_CHECK(Part::create(other ? "part2" : "part1", 6)->get() == (other ? 206 : 106), "created", "another object");
        }
        g_made = 0;
        MC_CHECK(Part::create("part1", 5)->get() == 105 && g_made == 1, "created", "the repeated creation made ", g_made, " objects");
        MC_CHECK(Part::size() == 3 && Part::entries().size() == 3, "catalogue", Part::entries().size(), " entries");
    }
    else if (what == 2)
    {
        StencilDataBase s;
        if (other) s.insert("other", 1);
        for (int i = 0; i < times; ++i)
        {
            Brittle b(i);
            bool f = fails(i, [&] { s.insert("x", b); });
            MC_CHECK(f == !s.contains("x"), "cache", "insertion failed: ", f, ", entry there: ", s.contains("x"));
            if (!f) { mc::noteState("s"); return; }
        }
        s.insert("x", Brittle(9));
        MC_CHECK(s.get<Brittle>("x").n == 9 && s.contains("other") == bool(other), "cache", "the later entry");
    }
    else
    {
        Dictionary d;
        d.insert("v", 4);
        TokenList t;
        t.insert(4);
        if (other) t.insert(5);
        Input in = what == 3 ? Input(d) : Input(t);
        Setting::fail = times;
        Setting::calls = 0;
        for (int i = 0; i < times; ++i) MC_CHECK(fails(1000, [&] { (void)NeoFOAM::read<Setting>(in); }), "error-lost", "the failure was not reported");
        MC_CHECK(Setting::calls == times, "reads", "the reader ran ", Setting::calls, " times");
        MC_CHECK(NeoFOAM::read<Setting>(in).v == 4, "read-value", "the repeated read");
        if (what == 4) MC_CHECK(std::get<TokenList>(in).next<int>() == 4, "token-position", "the caller's reading position moved");
        else MC_CHECK(std::get<Dictionary>(in).keys().size() == 1, "input", "the caller's dictionary changed");
    }
    mc::noteState(mc::cat(what, times, other));
}
MC_SCENARIO(failing_selection, "a class of a family whose constructor fails the first 0..70 times, directly or inside a class that is made of up to 30 nested parts selected by name: reported every time, and any later selection works")
{
    static const int TIMES[] = {0, 1, 2, 9, 17, 33, 70};
    static const int DEPTH[] = {-1, 0, 1, 2, 10, 30};
    int times = TIMES[choose(7, "failures")], depth = DEPTH[choose(6, "nesting")];
    const std::string key = depth < 0 ? "part1" : "composite";
    const int arg = depth < 0 ? 7 : depth;
    MC_STEP(times, " failures of ", key, " at depth ", depth);
    for (int i = 0; i < times; ++i)
    {
        g_fail = 7;
        MC_CHECK(fails(1000, [&] { (void)Part::create(key, arg); }), "error-lost", "the failure was not reported");
        g_fail = -1;
        if (i % 3 == 1) MC_CHECK(Part::create("part2", 1)->get() == 201, "created", "another class after ", i + 1, " failures");
    }
    g_fail = -1;
    for (int r = 0; r < 2; ++r)
    {
        int got = 0;
        try
        {
            got = Part::create(key, arg)->get();
        }
        catch (const std::exception& e)
        {
            mc::fail("selection-refused", mc::cat(key, " is refused after ", times, " failures: ", e.what()));
        }
        MC_CHECK(got == 107 + 1000 * (depth + 1), "created", "another object: ", got);
    }
    MC_CHECK(Part::entries().size() == 3 && Part::size() == 3, "catalogue", "registered classes changed");
    mc::noteState(mc::cat(times, depth));
}
