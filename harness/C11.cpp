#include "selcommon.hpp"
using namespace sel;
using mc::choose;
using NeoFOAM::BaseClassDocumentation;

MC_SCENARIO(bases_listed, "the catalogue has exactly the selectable bases")
{
    MC_STEP("bases");
    std::vector<std::string> got;
    for (auto& [k, v] : BaseClassDocumentation::docTable()) got.push_back(k);
    MC_CHECK(sorted(got) == sorted(bases()), "bases", "the catalogue has ", got.size(), " bases instead of ", bases().size());
    mc::noteState("b");
}
MC_SCENARIO(entries_listed, "each base: entries through the catalogue, through the base, through the documentation table and what can be created agree; each once")
{
    const std::string& b = bases()[static_cast<size_t>(choose(static_cast<int>(bases().size()), "base"))];
    int again = choose(3, "use before");
    auto have = namesOf(b);
    MC_STEP(b, " use ", again);
    withBase(b, [&](auto* p)
             {
                 using B = std::remove_pointer_t<decltype(p)>;
                 if (again == 1)
                     for (auto& n : have) createAndCheck<B>(n, 2);
                 if (again == 2)
                 {
                     for (auto& n : have) (void)BaseClassDocumentation::doc(b, n);
                     mc::expectAnyError("unknown-doc", [&] { (void)BaseClassDocumentation::doc(b, "no such class"); }, "documentation of an unknown class");
                     mc::expectAnyError("unknown-doc", [&] { (void)BaseClassDocumentation::schema(b, "no such class"); }, "schema of an unknown class");
                     mc::expectAnyError("unknown-doc", [&] { createAndCheck<B>("no such class", 1); }, "creation of an unknown class");
                 }
                 MC_CHECK(sorted(BaseClassDocumentation::entries(b)) == have, "entries", "catalogue of ", b, " lists ", BaseClassDocumentation::entries(b).size(), " classes instead of ", have.size());
                 MC_CHECK(sorted(B::entries()) == have, "entries", b, "::entries lists ", B::entries().size());
                 std::vector<std::string> d;
                 for (auto& [k, v] : B::docTable()) d.push_back(k);
                 MC_CHECK(sorted(d) == have, "doc-entries", "documentation table of ", b, " has ", d.size());
                 for (auto& n : BaseClassDocumentation::entries(b)) createAndCheck<B>(n, 1); // everything listed can be created
                 return 0;
             });
    mc::noteState(b + std::to_string(again));
}
MC_SCENARIO(texts, "each class: documentation and schema through the catalogue and the base are the class's own, before and after reading any other class's")
{
    const auto& e = expected()[static_cast<size_t>(choose(static_cast<int>(expected().size()), "class"))];
    const auto& o = expected()[static_cast<size_t>(choose(static_cast<int>(expected().size()), "other class"))];
    MC_STEP(e.base, "/", e.name, " after ", o.base, "/", o.name);
    (void)BaseClassDocumentation::doc(o.base, o.name);
    (void)BaseClassDocumentation::schema(o.base, o.name);
    std::string doc = e.doc(), schema = e.schema();
    MC_CHECK(BaseClassDocumentation::doc(e.base, e.name) == doc, "doc", "documentation of ", e.base, "/", e.name, " is '", BaseClassDocumentation::doc(e.base, e.name), "'");
    MC_CHECK(BaseClassDocumentation::schema(e.base, e.name) == schema, "schema", "schema of ", e.base, "/", e.name, " is '", BaseClassDocumentation::schema(e.base, e.name), "'");
    withBase(e.base, [&](auto* p)
             {
                 using B = std::remove_pointer_t<decltype(p)>;
                 MC_CHECK(B::doc(e.name) == doc && B::schema(e.name) == schema, "doc", "texts of ", e.base, "/", e.name);
                 return 0;
             });
    mc::noteState(mc::cat(e.base, e.name, o.base, o.name));
}
MC_SCENARIO(absent, "every base name x every class name not registered with it, and unknown base names: an error, never a text of another class; catalogue unchanged")
{
    std::vector<std::string> bs = bases();
    bs.insert(bs.end(), {"", "shape", "Shape ", "Interp", "circle"});
    const std::string& b = bs[static_cast<size_t>(choose(static_cast<int>(bs.size()), "base"))];
    std::set<std::string> all = {"circle ", "Circle", "unknown", "Shape", " "};
    for (auto& e : expected()) all.insert(e.name);
    auto have = namesOf(b);
    std::vector<std::string> bad;
    for (auto& n : all)
        if (!std::count(have.begin(), have.end(), n)) bad.push_back(n);
    const std::string n = bad[static_cast<size_t>(choose(static_cast<int>(bad.size()), "name"))];
    MC_STEP("absent ", b, "/", n);
    mc::expectAnyError("unknown-doc", [&] { (void)BaseClassDocumentation::doc(b, n); }, "documentation of " + b + "/" + n);
    mc::expectAnyError("unknown-doc", [&] { (void)BaseClassDocumentation::schema(b, n); }, "schema of " + b + "/" + n);
    if (have.empty()) mc::expectAnyError("unknown-base", [&] { (void)BaseClassDocumentation::entries(b); }, "entries of unknown base " + b);
    else MC_CHECK(sorted(BaseClassDocumentation::entries(b)) == have, "entries", "catalogue of ", b, " changed");
    MC_CHECK(BaseClassDocumentation::docTable().size() == bases().size(), "bases", "the failed request changed the catalogue");
    mc::noteState(b + "/" + n);
}
