#include "testcoll.hpp"
using namespace hv;
using mc::choose;
using NeoFOAM::Document;
using NeoFOAM::DocumentValidator;

namespace
{
const std::vector<std::string> REQ = {"name", "key1", "n"};
// validators of the alphabet; each with its model
struct Kind
{
    const char* name;
    DocumentValidator f;
    std::function<bool(const Model&)> model;
};
int g_calls = 0;
std::vector<Kind> kinds()
{
    return {
        {"default", NeoFOAM::hasId, [](const Model& m) { return m.count("id") > 0; }},
        {"needs name", [](const Dictionary& d) { ++g_calls; return d.contains("name"); }, [](const Model& m) { return m.count("name") > 0; }},
        {"needs name and key1", [](const Dictionary& d) { ++g_calls; return d.contains("name") && d.contains("key1"); }, [](const Model& m) { return m.count("name") && m.count("key1"); }},
        {"n positive", [](Dictionary d) { ++g_calls; return d.contains("n") && d.get<int>("n") > 0; }, [](const Model& m) { return m.count("n") && m.at("n").n > 0; }},
        {"no name", [](const Dictionary& d) { ++g_calls; return !d.contains("name"); }, [](const Model& m) { return !m.count("name"); }},
        {"at most 2 keys beside id", [](const Dictionary& d) { ++g_calls; return d.keys().size() - d.contains("id") <= 2; }, [](const Model& m) { return m.size() - m.count("id") <= 2; }},
        {"accept all", [](const Dictionary&) { ++g_calls; return true; }, [](const Model&) { return true; }},
        {"reject all", [](const Dictionary&) { ++g_calls; return false; }, [](const Model&) { return false; }},
    };
}
bool validates(const Document& d, const char* who)
{
    try
    {
        bool r = d.validate();
        MC_CHECK(r, "validate-result", who, ": validate returned false instead of reporting an error");
        return true;
    }
    catch (const std::runtime_error&)
    {
        return false;
    }
}
Model withoutId(Model m)
{
    m.erase("id");
    return m;
}
void checkDoc(Document& d, const Model& m, const Kind& k, const char* who)
{
    // the id entry is the document's own unless the model says the user touched it
    Model full = m;
    bool want = k.model(full);
    MC_CHECK(validates(d, who) == want, "validation", who, ": validator '", k.name, "' and content ", str(m), ": validate ", want ? "failed" : "succeeded");
    MC_CHECK(validates(d, who) == want, "validation", who, ": second validation differs");
    Model body = withoutId(m);
    MC_CHECK(d.contains("id") == (m.count("id") > 0), "id-entry", who, ": id entry");
    MC_CHECK(d.keys().size() == m.size(), "content", who, ": ", d.keys().size(), " keys instead of ", str(m));
    for (auto& [key, v] : body) MC_CHECK(d.contains(key) && holds(d[key], v), "content", who, ": '", key, "' is not ", str(v));
}
// construct from data; checks that construction succeeds exactly when the validator accepts
bool construct(const Model& data, const Kind& k, std::unique_ptr<Document>& out, Model& m, int form)
{
    Dictionary d;
    for (auto& [key, v] : data) d.insert(key, make(v));
    m = data;
    m["id"] = data.count("id") ? data.at("id") : Val {STR, -1}; // a fresh id is inserted before validation
    bool want = k.model(m);
    bool ok = false;
    try
    {
        if (form == 0) out = std::make_unique<Document>(d, k.f);
        else
        {
            Document tmp(d, k.f);
            out = std::make_unique<Document>(tmp);
        }
        ok = true;
    }
    catch (const std::runtime_error&)
    {
    }
    MC_CHECK(ok == want, "construction", "constructing with validator '", k.name, "' from ", str(data), want ? " was refused" : " was accepted");
    Model md = data;
    checkDict(d, md, {"id", "name", "key1", "n"}, "the dictionary constructed from");
    return ok;
}
void edit(Document& d, Model& m, int op)
{
    switch (op)
    {
    case 0: MC_STEP("insert name"); d.insert("name", std::string("text-2")); m["name"] = {STR, 2}; break;
    case 1: MC_STEP("insert key1"); d.insert("key1", 5); m["key1"] = {INT, 5}; break;
    case 2: MC_STEP("insert n=1"); d.insert("n", 1); m["n"] = {INT, 1}; break;
    case 3: MC_STEP("insert n=-1"); d.insert("n", -1); m["n"] = {INT, -1}; break;
    case 4: MC_STEP("remove name"); d.remove("name"); m.erase("name"); break;
    case 5: MC_STEP("remove key1"); d.remove("key1"); m.erase("key1"); break;
    case 6: MC_STEP("remove n"); d.remove("n"); m.erase("n"); break;
    case 7:
        MC_STEP("n through reference = 0");
        if (!m.count("n")) mc::prune();
        d.get<int>("n") = 0;
        m["n"].n = 0;
        break;
    case 8: MC_STEP("remove id"); d.remove("id"); m.erase("id"); break;
    case 10:
        MC_STEP("name through its reference");
        if (!m.count("name")) mc::prune();
        NeoFOAM::name(d) = std::any_cast<std::string>(make({STR, 5}));
        MC_CHECK(&NeoFOAM::name(d) == &d.get<std::string>("name") && &NeoFOAM::name(static_cast<const Document&>(d)) == &d.get<std::string>("name"), "name", "name() is not the document's name entry");
        m["name"] = {STR, 5};
        break;
    case 9: MC_STEP("restore id"); d.insert("id", std::string("text-4")); m["id"] = {STR, 4}; break;
    }
}
}

MC_SCENARIO(construction, "8 validators x every subset and value of 3 data keys x user id given or not x construction form")
{
    auto ks = kinds();
    auto& k = ks[static_cast<size_t>(choose(static_cast<int>(ks.size()), "validator"))];
    Model data;
    if (choose(2, "name")) data["name"] = {STR, 2};
    if (choose(2, "key1")) data["key1"] = {INT, 3};
    int n = choose(3, "n");
    if (n) data["n"] = {INT, n == 1 ? 4 : -4};
    if (choose(2, "id")) data["id"] = {STR, 6};
    int form = choose(2, "form");
    std::unique_ptr<Document> d;
    Model m;
    MC_STEP("construct with '", k.name, "' from ", str(data));
    if (construct(data, k, d, m, form)) checkDoc(*d, m, k, "document");
    mc::noteState(str(data) + k.name);
}
MC_SCENARIO(default_constructed, "a default constructed document under every history of up to 3 edits")
{
    Document d;
    Model m {{"id", {STR, -1}}};
    auto k = kinds()[0];
    int len = choose(4, "len");
    for (int i = 0; i < len; ++i) edit(d, m, choose(11, "edit"));
    checkDoc(d, m, k, "document");
    mc::noteState(str(m));
}
MC_SCENARIO(edit_histories, "8 validators x accepted initial data x every history of up to 3 (thorough: 4) edits and copies; validation decided after each prefix")
{
    auto ks = kinds();
    size_t ki = static_cast<size_t>(choose(static_cast<int>(ks.size()), "validator"));
    auto& k = ks[ki];
    static const Model inits[] = {{}, {{"name", {STR, 2}}}, {{"name", {STR, 2}}, {"key1", {INT, 1}}}, {{"n", {INT, 3}}}};
    std::unique_ptr<Document> d;
    Model m;
    if (!construct(inits[choose(4, "data")], k, d, m, 0)) mc::prune();
    // the other document has another validator, so that a validator swapped in copying shows
    std::unique_ptr<Document> o;
    Model mo;
    size_t oi = ki == 6 ? 1 : 6;
    construct({{"name", {STR, 1}}}, ks[oi], o, mo, 0);
    int len = choose((mc::thorough() ? 4 : 3) + 1, "len");
    for (int i = 0; i < len; ++i)
    {
        int op = choose(17, "op");
        if (op < 10) edit(*d, m, op);
        else if (op == 16) edit(*d, m, 10);
        else if (op == 10)
        {
            MC_STEP("replaced by its copy");
            Document c(*d);
            d->insert("extra", 1);
            d = std::make_unique<Document>(c);
        }
        else if (op == 11)
        {
            MC_STEP("other = this");
            *o = *d;
            mo = m;
            oi = ki;
        }
        else if (op == 12)
        {
            MC_STEP("moved");
            Document c(std::move(*d));
            d = std::make_unique<Document>();
            *d = std::move(c);
        }
        else if (op == 13)
        {
            MC_STEP("swap with other");
            std::swap(*d, *o);
            std::swap(m, mo);
            std::swap(ki, oi);
        }
        else if (op == 14)
        {
            MC_STEP("validate");
            MC_CHECK(validates(*d, "document") == ks[ki].model(m), "validation", "validate in between with '", ks[ki].name, "' on ", str(m));
        }
        else
        {
            MC_STEP("sliced assignment of the data");
            static_cast<Dictionary&>(*d) = Dictionary({{"id", make({STR, 3})}, {"n", make({INT, 2})}});
            m = {{"id", {STR, 3}}, {"n", {INT, 2}}};
        }
    }
    checkDoc(*d, m, ks[ki], "document");
    checkDoc(*o, mo, ks[oi], "other");
    mc::noteState(mc::cat(str(m), str(mo), ki, ",", oi));
}
MC_SCENARIO(throwing_and_stateful_validators, "a validator that throws reports through construction and validation; a validator with captured state is copied with the document")
{
    int mode = choose(3, "mode");
    auto limit = std::make_shared<int>(5);
    DocumentValidator v;
    if (mode == 0) v = [](const Dictionary&) -> bool { throw std::runtime_error("no"); };
    else v = [limit](const Dictionary& d) { return d.contains("n") && d.get<int>("n") <= *limit; };
    Dictionary d;
    int n = choose(8, "n");
    d.insert("n", n);
    MC_STEP("mode ", mode, " n ", n);
    if (mode == 0)
    {
        mc::expectThrow<std::runtime_error>("throwing-validator", [&] { Document x(d, v); }, "construction with a throwing validator");
        return;
    }
    bool ok = true;
    std::unique_ptr<Document> doc;
    try
    {
        doc = std::make_unique<Document>(d, v);
    }
    catch (const std::runtime_error&)
    {
        ok = false;
    }
    MC_CHECK(ok == (n <= 5), "construction", "n=", n);
    if (!ok) return;
    Document copy = *doc;
    *limit = 3;
    MC_CHECK(validates(copy, "copy") == (n <= 3) && validates(*doc, "doc") == (n <= 3), "validation", "after the limit changed, n=", n);
    copy.get<int>("n") = 0;
    MC_CHECK(validates(copy, "copy") && validates(*doc, "doc") == (n <= 3), "validation", "after editing the copy");
    mc::noteState(mc::cat(mode, n));
}
MC_SCENARIO(big_documents, "documents of every size 0..30 whose validator requires every single key in turn to be present after removal of every key")
{
    int n = 1 + choose(30, "size"), victim = choose(n, "victim"), needed = choose(n, "needed");
    std::string need = "k" + std::to_string(needed);
    Dictionary d;
    for (int i = 0; i < n; ++i) d.insert("k" + std::to_string(i), i);
    Document doc(d, [need](const Dictionary& x) { return x.contains(need); });
    Document c(doc);
    doc.remove("k" + std::to_string(victim));
    MC_STEP(n, " keys, removed ", victim, " needed ", needed);
    MC_CHECK(validates(doc, "doc") == (victim != needed), "validation", "removed ", victim, " needed ", needed);
    MC_CHECK(validates(c, "copy"), "validation", "copy");
    d.remove(need);
    mc::expectThrow<std::runtime_error>("construction", [&] { Document x(d, [need](const Dictionary& x) { return x.contains(need); }); }, "constructing without the needed key");
    mc::noteState(mc::cat(n, ",", victim, ",", needed));
}
MC_SCENARIO(own_errors, "validators that look for an entry and report its absence or type by 4 kinds of error x 4 contents, at construction and after every edit: never accepted")
{
    int kind = choose(4, "error"), first = choose(4, "content"), second = choose(4, "edited content");
    auto fill = [](Dictionary& d, int c)
    {
        if (d.contains("n")) d.remove("n");
        if (c == 1) d.insert("n", std::string("text"));
        if (c == 2) d.insert("n", -1);
        if (c == 3) d.insert("n", 1);
    };
    DocumentValidator v = [kind](const Dictionary& d) -> bool
    {
        if (kind == 0) return d.get<int>("n") > 0;
        bool good = d.contains("n") && d["n"].type() == typeid(int) && d.get<int>("n") > 0;
        if (good) return true;
        if (kind == 1) throw std::out_of_range("refused");
        if (kind == 2) throw std::logic_error("refused");
        throw 1;
    };
    auto accepted = [](auto&& f)
    {
        try
        {
            f();
        }
        catch (const mc::Violation&)
        {
            throw;
        }
        catch (const std::exception&)
        {
            return false;
        }
        catch (int)
        {
            return false;
        }
        return true;
    };
    Dictionary d;
    fill(d, first);
    MC_STEP("error ", kind, " content ", first, " then ", second);
    std::unique_ptr<Document> doc;
    MC_CHECK(accepted([&] { doc = std::make_unique<Document>(d, v); }) == (first == 3), "construction", "content ", first);
    if (!doc)
    {
        Dictionary g;
        fill(g, 3);
        doc = std::make_unique<Document>(g, v);
    }
    fill(*doc, second);
    for (int i = 0; i < 2; ++i) MC_CHECK(accepted([&] { (void)doc->validate(); }) == (second == 3), "validation", "content ", second);
    Document copy = *doc;
    fill(*doc, 3);
    MC_CHECK(accepted([&] { (void)copy.validate(); }) == (second == 3) && accepted([&] { (void)doc->validate(); }), "validation", "copy with content ", second);
    mc::noteState(mc::cat(kind, first, second));
}
MC_SCENARIO(default_validator, "the default validator on ids of 18 types or none: it asks for an id entry only")
{
    int k = choose(NTAGS + 2, "id");
    Dictionary d;
    d.insert("x", 1);
    if (k) d.insert("id", make({k > NTAGS ? static_cast<int>(EMPTY) : k - 1, 2}));
    MC_STEP("id ", k);
    MC_CHECK(NeoFOAM::hasId(d) == (k > 0), "hasId", "id of kind ", k);
    d.remove("x");
    MC_CHECK(NeoFOAM::hasId(d) == (k > 0), "hasId", "only an id of kind ", k);
    Document a(d);
    MC_CHECK(validates(a, "document"), "validation", "id of kind ", k);
    a.remove("id");
    MC_CHECK(!validates(a, "document") && !NeoFOAM::hasId(a), "validation", "without id");
    mc::noteState(std::to_string(k));
}
