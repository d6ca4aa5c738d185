// Reading shared objects and changing separate ones from several threads at once: every pair of
// operations, every order of their synchronising steps, any unsynchronised conflict is reported.
#include "testcoll.hpp"
#include "sched.hpp"
#include "selcommon.hpp"
#include <sstream>
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
#include <algorithm>
#include <iostream>
#include <optional>
using namespace hv;
using mc::choose;
using NeoFOAM::Document;
using NeoFOAM::StencilDataBase;

namespace
{
// failing lookups are reported on std::cerr, which may be used concurrently
void quiet()
{
    mcs::ignore(&std::cerr, sizeof std::cerr);
    mcs::ignore(&std::cout, sizeof std::cout);
    std::cerr.setstate(std::ios::badbit);
    std::cout.setstate(std::ios::badbit);
}
template<typename F>
std::string outcome(F&& f)
{
    try
    {
        return f();
    }
    catch (const mc::Violation&) { throw; }
    catch (const mc::Pruned&) { throw; }
    catch (const mc::ExitCalled&) { return "exit"; }
    catch (const std::bad_any_cast&) { return "bad cast"; }
    catch (const std::out_of_range&) { return "out of range"; }
    catch (const std::exception&) { return "exception"; }
}
std::string list(std::vector<std::string> v)
{
    std::sort(v.begin(), v.end());
    std::string r;
    for (auto& x : v) r += x + ",";
    return r;
}
std::string n(auto v) { return std::to_string(v); }

Dictionary makeDict()
{
    Dictionary d, sub, subsub;
    subsub.insert("leaf", 7);
    sub.insert("inner", subsub);
    sub.insert("x", 2.5);
    d.insert("sub", sub);
    d.insert("i", 1);
    d.insert("text", std::string(60, 't'));
    d.insert("list", std::vector<int> {1, 2, 3});
    d.insert("tok", TokenList({std::string("a"), 2, 3.5}));
    return d;
}
bool hasI(Dictionary d) { return d.contains("i"); }
struct World
{
    Dictionary dict = makeDict();
    TokenList tok {std::string("first"), 2, 3.5, makeDict()};
    Document doc {makeDict(), hasI};
    tc::Database db;
    StencilDataBase stencils;
    World()
    {
        auto& a = tc::CollA::instance(db, "A");
        for (int i = 0; i < 3; ++i) a.insert(tc::DocA(tc::mkDoc("a" + n(i), i)));
        tc::CollB::instance(db, "B").insert(tc::DocB(tc::mkDoc("b0", 5)));
        doc.insert("id", std::string("given"));
        doc.insert("name", std::string("docname"));
        stencils.insert("one", 1);
        stencils.insert("text", std::string("stencil"));
    }
};
using Op = std::pair<const char*, std::string (*)(const World&)>;
const std::vector<Op>& dictReads()
{
    static const std::vector<Op> v = {
        {"get int", [](const World& w) { return n(w.dict.get<int>("i")); }},
        {"get string", [](const World& w) { return w.dict.get<std::string>("text"); }},
        {"get other type", [](const World& w) { return n(w.dict.get<double>("i")); }},
        {"get missing", [](const World& w) { return n(w.dict.get<int>("missing")); }},
        {"get nested", [](const World& w) { return n(w.dict.subDict("sub").subDict("inner").get<int>("leaf")); }},
        {"subDict of a value", [](const World& w) { return n(w.dict.subDict("i").empty()); }},
        {"index", [](const World& w) { return n(w.dict["list"].type() == typeid(std::vector<int>)); }},
        {"contains", [](const World& w) { return n(w.dict.contains("i")) + n(w.dict.contains("no")); }},
        {"isDict", [](const World& w) { return n(w.dict.isDict("sub")) + n(w.dict.isDict("i")) + n(w.dict.isDict("no")); }},
        {"keys", [](const World& w) { return list(w.dict.keys()); }},
        {"getMap", [](const World& w) { return n(w.dict.getMap().size()) + n(w.dict.empty()); }},
        {"copy", [](const World& w) { Dictionary c(w.dict); c.insert("i", 9); c.subDict("sub").insert("x", 0.5); return list(c.keys()); }},
    };
    return v;
}
const std::vector<Op>& otherReads()
{
    static const std::vector<Op> v = {
        {"token", [](const World& w) { return w.tok.get<std::string>(0); }},
        {"token of other type", [](const World& w) { return n(w.tok.get<int>(0)); }},
        {"missing token", [](const World& w) { return n(w.tok.get<int>(9)); }},
        {"tokens", [](const World& w) { return n(w.tok.size()) + n(w.tok.empty()); }},
        {"copied tokens", [](const World& w) { TokenList c(w.tok); c.remove(0); c.insert(4); return n(c.get<int>(0)) + n(c.size()); }},
        {"nested token", [](const World& w) { return n(w.tok.get<Dictionary>(3).subDict("sub").get<double>("x")); }},
        {"document id", [](const World& w) { return w.doc.id(); }},
        {"document name", [](const World& w) { return NeoFOAM::name(w.doc); }},
        {"validate", [](const World& w) { return n(w.doc.validate()); }},
        {"copied document", [](const World& w) { Document c(w.doc); c.remove("i"); return n(c.validate()) + c.id(); }},
        {"databases", [](const World& w) { return n(w.db.size()) + n(w.db.contains("A")) + n(w.db.contains("C")); }},
        {"collection", [](const World& w) { auto& c = w.db.at("A"); return c.name() + c.type() + n(c.size()) + n(&c.db() == &w.db); }},
        {"missing collection", [](const World& w) { return w.db.at("C").name(); }},
        {"document of a collection", [](const World& w) { return n(w.db.at("A").doc("a1").get<int>("value")); }},
        {"missing document", [](const World& w) { return w.db.at("A").doc("b0").id(); }},
        {"find", [](const World& w) { return list(w.db.at("A").find([](const Document& d) { return d.get<int>("value") > 0; })); }},
        {"typed collection", [](const World& w) { return list(w.db.at("A").as<tc::CollA>().sortedKeys()); }},
        {"other typed collection", [](const World& w) { return list(w.db.at("B").as<tc::CollA>().sortedKeys()); }},
        {"stencil", [](const World& w) { return n(w.stencils.get<int>("one")) + w.stencils.get<std::string>("text"); }},
        {"missing stencil", [](const World& w) { return n(w.stencils.get<int>("no")); }},
        {"stencils", [](const World& w) { return n(w.stencils.contains("one")) + n(w.stencils.contains("no")) + n(w.stencils["one"].type() == typeid(int)); }},
        {"copied stencils", [](const World& w) { StencilDataBase c(w.stencils); c.insert("two", 2); return n(c.get<int>("two")); }},
    };
    return v;
}
void readTogether(const std::vector<Op>& ops, size_t threads)
{
    std::vector<size_t> k;
    for (size_t t = 0; t < threads; ++t) k.push_back(static_cast<size_t>(choose(static_cast<int>(ops.size()), "operation")));
    bool warm = choose(2, "used before");
    mc::setDeviationBound(mc::thorough() ? 5 : 3);
    quiet();
    const World shared;
    std::vector<std::string> got(threads);
    if (warm)
        for (auto& o : ops) outcome([&] { return o.second(shared); });
    std::vector<std::function<void()>> tasks;
    for (size_t t = 0; t < threads; ++t) tasks.push_back([&, t] { got[t] = outcome([&] { return ops[k[t]].second(shared); }); });
    mcs::parallel(tasks);
    const World alone;
    std::string st;
    for (size_t t = 0; t < threads; ++t)
    {
        std::string want = outcome([&] { return ops[k[t]].second(alone); });
        MC_STEP("thread ", t, ": ", ops[k[t]].first, " -> ", got[t]);
        MC_CHECK(got[t] == want, "concurrent-read", "'", ops[k[t]].first, "' yields ", got[t], " next to other readers, ", want, " alone");
        // nor did the readers leave anything behind
        std::string after = outcome([&] { return ops[k[t]].second(shared); });
        MC_CHECK(after == want, "concurrent-read", "'", ops[k[t]].first, "' yields ", after, " after the readers, ", want, " before");
        st += got[t] + "|";
    }
    mc::noteState(mc::cat(st, warm));
}

// ---- separate objects ---------------------------------------------------------------------------
struct Mine
{
    Dictionary dict;
    TokenList tok;
    Document doc;
};
using Write = std::pair<const char*, void (*)(Mine&)>;
const std::vector<Write>& writes()
{
    static const std::vector<Write> v = {
        {"reads", [](Mine& m) { m.dict.get<int>("i"); m.tok.get<int>(1); m.doc.id(); }},
        {"insert", [](Mine& m) { m.dict.insert("new", 1); }},
        {"overwrite", [](Mine& m) { m.dict.insert("text", std::string("other")); }},
        {"remove", [](Mine& m) { m.dict.remove("text"); }},
        {"nested insert", [](Mine& m) { m.dict.subDict("sub").subDict("inner").insert("leaf", 8); }},
        {"value edit", [](Mine& m) { m.dict.get<std::vector<int>>("list")[1] = 20; }},
        {"text edit", [](Mine& m) { m.dict.get<std::string>("text")[3] = 'T'; }},
        {"nested tokens", [](Mine& m) { m.dict.get<TokenList>("tok").next<std::string>(); m.dict.get<TokenList>("tok").remove(0); }},
        {"assign", [](Mine& m) { m.dict = Dictionary {}; m.dict.insert("i", 4); }},
        {"missing", [](Mine& m) { outcome([&] { return n(m.dict.get<int>("no")); }); outcome([&] { return n(m.dict.get<double>("i")); }); }},
        {"tokens", [](Mine& m) { m.tok.insert(5); m.tok.remove(0); m.tok.get<int>(0) = 6; }},
        {"cursor", [](Mine& m) { m.tok.next<std::string>(); m.tok.next<int>(); }},
        {"pop", [](Mine& m) { m.tok.popFront<std::string>(); }},
        {"document", [](Mine& m) { m.doc.insert("i", 3); m.doc.remove("text"); m.doc.validate(); NeoFOAM::name(m.doc) = "mine"; }},
        {"rename", [](Mine& m) { m.doc.insert("id", std::string("mine")); }},
        {"new objects", [](Mine& m) { m.dict = makeDict(); m.tok = TokenList({1, 2}); m.doc = Document(m.doc); }},
    };
    return v;
}
std::string digestDict(const Dictionary& d)
{
    auto ks = d.keys();
    std::sort(ks.begin(), ks.end());
    std::string r = "{";
    for (auto& k : ks)
    {
        r += k + "=";
        if (d.isDict(k)) r += digestDict(d.subDict(k));
        else if (auto i = std::any_cast<int>(&d[k])) r += n(*i);
        else if (auto s = std::any_cast<std::string>(&d[k])) r += *s;
        else if (auto x = std::any_cast<double>(&d[k])) r += n(*x);
        else if (auto v = std::any_cast<std::vector<int>>(&d[k])) for (int e : *v) r += n(e) + ",";
        else if (auto t = std::any_cast<TokenList>(&d[k])) r += "T" + n(t->size());
        r += ";";
    }
    return r + "}";
}
std::string digest(Mine& m, int)
{
    std::string r = digestDict(m.dict) + digestDict(m.doc);
    for (auto& t : m.tok.tokens()) r += std::string(t.type().name()) + (t.type() == typeid(int) ? n(std::any_cast<int>(t)) : "");
    r += outcome([&] { return n(m.tok.next<double>()); }) + outcome([&] { return n(m.tok.next<int>()); });
    return r;
}
std::unique_ptr<Mine> copyOf(const Mine& m, int how)
{
    switch (how)
    {
    case 0: return std::make_unique<Mine>(m);
    case 1:
    {
        auto r = std::make_unique<Mine>();
        r->dict = m.dict;
        r->tok = m.tok;
        r->doc = m.doc;
        return r;
    }
    default: // through values of a dictionary
    {
        Dictionary box;
        box.insert("d", m.dict);
        box.insert("t", m.tok);
        Dictionary second = box;
        return std::make_unique<Mine>(Mine {second.subDict("d"), second.get<TokenList>("t"), m.doc});
    }
    }
}
Mine original()
{
    Dictionary d = makeDict();
    d.insert("id", std::string("given"));
    d.insert("name", std::string("docname"));
    return Mine {makeDict(), TokenList({std::string("first"), 2, 3.5}), Document(d, hasI)};
}
}

MC_SCENARIO_ISOLATED(dictionary_reads, "2 threads reading one dictionary x all pairs of 12 operations (typed, missing, nested, keys, copies) x used before or not x all schedules with up to 3 (thorough: 5) preemptions")
{
    readTogether(dictReads(), 2);
}
MC_SCENARIO_ISOLATED(shared_reads, "2 threads reading token lists, documents, databases, collections and stencil caches x all pairs of 22 operations x used before or not x all schedules with up to 3 (thorough: 5) preemptions")
{
    readTogether(otherReads(), 2);
}
MC_SCENARIO_THOROUGH(three_readers, "3 threads reading one dictionary x all triples of 12 operations x used before or not")
{
    readTogether(dictReads(), 3);
}

MC_SCENARIO_ISOLATED(separate_copies, "2 threads, each changing its own copy (or one the original) of a dictionary, token list and document x all pairs of 16 changes x 3 ways of copying x original used or not x all schedules with up to 3 (thorough: 5) preemptions: both get what they would alone")
{
    const auto& W = writes();
    auto k0 = static_cast<size_t>(choose(16, "change0")), k1 = static_cast<size_t>(choose(16, "change1"));
    int how = choose(3, "copy");
    bool useOriginal = choose(2, "original used");
    mc::setDeviationBound(mc::thorough() ? 5 : 3);
    quiet();
    Mine src = original();
    auto a = copyOf(src, how), b = copyOf(src, how);
    Mine& first = useOriginal ? src : *a;
    mcs::parallel({[&] { W[k0].second(first); }, [&] { W[k1].second(*b); }});
    auto alone = [&](size_t k)
    {
        Mine m = original();
        W[k].second(m);
        return digest(m, 0);
    };
    std::string g0 = digest(first, 0), g1 = digest(*b, 0), w0 = alone(k0), w1 = alone(k1);
    MC_STEP(W[k0].first, " next to ", W[k1].first);
    MC_CHECK(g0 == w0, "separate-objects", "'", W[k0].first, "' next to '", W[k1].first, "' on another copy gives ", g0, " instead of ", w0);
    MC_CHECK(g1 == w1, "separate-objects", "'", W[k1].first, "' next to '", W[k0].first, "' on another copy gives ", g1, " instead of ", w1);
    mc::noteState(mc::cat(g0, g1, how, useOriginal));
}

// ---- selection at run time ------------------------------------------------------------------------
namespace
{
template<typename B>
std::string readBase(int what, const std::string& cls)
{
    switch (what)
    {
    case 0: return list(B::entries());
    case 1: return B::doc(cls);
    case 2: return B::schema(cls);
    case 3: return n(B::size()) + n(B::table().count(cls));
    case 4: return list(NeoFOAM::BaseClassDocumentation::entries(B::name()));
    case 5: return NeoFOAM::BaseClassDocumentation::doc(B::name(), cls) + NeoFOAM::BaseClassDocumentation::schema(B::name(), cls);
    case 6:
    {
        std::ostringstream o;
        B::print(o);
        return n(o.str().size());
    }
    case 7: return outcome([&] { return sel::createAndCheck<B>("no such class", 1); });
    default: return sel::createAndCheck<B>(cls, what);
    }
}
}
MC_SCENARIO_ISOLATED(selection, "2 threads selecting classes and reading the catalogue x all pairs of 10 operations (lists, texts, sizes, unknown names, two constructions) x 5 bases each (12 pairs) x used before or not x all schedules with up to 2 (thorough: 4) preemptions")
{
    int k0 = choose(10, "operation0"), k1 = choose(10, "operation1");
    int pair = choose(12, "bases");
    bool warm = choose(2, "used before");
    mc::setDeviationBound(mc::thorough() ? 4 : 2);
    static const char* P[12][2] = {
        {"Shape", "Shape"}, {"Model", "Model"}, {"Nullary", "Nullary"}, {"Owner", "Owner"}, {"Interp<int>", "Interp<int>"}, {"Shape", "Model"},
        {"Model", "Shape"}, {"Nullary", "Shape"}, {"Interp<int>", "Interp<double>"}, {"Owner", "Nullary"}, {"Solo", "Solo"}, {"Model", "Owner"}};
    std::string b[2] = {P[pair][0], P[pair][1]};
    std::string c[2];
    for (int t = 0; t < 2; ++t) c[t] = sel::namesOf(b[t]).at(t ? sel::namesOf(b[t]).size() - 1 : 0);
    quiet();
    auto act = [&](int t) { return sel::withBase(b[t], [&](auto* x) { return readBase<std::remove_pointer_t<decltype(x)>>(t ? k1 : k0, c[t]); }); };
    if (warm) act(0), act(1);
    std::string got[2];
    mcs::parallel({[&] { got[0] = act(0); }, [&] { got[1] = act(1); }});
    for (int t = 0; t < 2; ++t)
    {
        std::string want = act(t);
        MC_CHECK(got[t] == want, "concurrent-selection", "operation ", t ? k1 : k0, " on ", b[t], " yields '", got[t], "' next to operation ", t ? k0 : k1, " on ", b[1 - t], ", '", want, "' alone");
    }
    mc::noteState(mc::cat(got[0], "|", got[1], warm));
}
