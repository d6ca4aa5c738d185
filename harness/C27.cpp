// Registered fields are found under exactly one key with their metadata.
#include "bcs.hpp"
#include <map>
#include <memory>
using namespace fv;
using NeoFOAM::Database;
using NeoFOAM::Document;
using fvcc::FieldCollection;
using fvcc::FieldDocument;

namespace
{
const MeshData& D()
{
    static MeshData d = line({0, 1, 3});
    return d;
}
struct Stored
{
    std::string name;
    std::int64_t t, it, sc;
    std::vector<double> flat; // cells then boundary, all components
    const void* field;        // where it lives
    bool vector;
    std::vector<int> bc;
    std::vector<double> bcNumber; // first component
};
template<typename T>
std::vector<double> flat(const Vol<T>& f)
{
    std::vector<double> r;
    auto app = [&](const std::vector<T>& v)
    {
        for (auto& x : v)
            if constexpr (std::is_same_v<T, scalar>) r.push_back(x);
            else r.push_back(x[0]), r.push_back(x[1]), r.push_back(x[2]);
    };
    app(val(f.internalField())), app(val(f.boundaryField().value()));
    return r;
}
struct Col
{
    std::map<std::string, Stored> docs;
    const void* at = nullptr; // address of the collection object
};
struct Side // one database and what is in it
{
    std::unique_ptr<Database> db = std::make_unique<Database>();
    std::map<std::string, Col> cols;
};
template<typename T>
void checkField(Side& s, const std::string& cname, const std::string& key, const Stored& w, Vol<T>& f, const char* via)
{
    MC_CHECK(&f == w.field, "moved", via, ": the field ", key, " is found at another place than when it was registered");
    MC_CHECK(f.key == key, "own-key", via, ": the field under ", key, " believes its key is '", f.key, "'");
    MC_CHECK(f.fieldCollectionName == cname, "own-collection", via, ": the field ", key, " of ", cname, " believes it is in '", f.fieldCollectionName, "'");
    MC_CHECK(f.hasDatabase() && &f.db() == s.db.get() && &std::as_const(f).db() == s.db.get(), "own-database", via, ": the field ", key, " does not know its database");
    MC_CHECK(f.registered(), "registered", via, ": the field ", key, " says it is not registered");
    MC_CHECK(f.name == w.name, "name", via, ": the field ", key, " is called ", f.name, ", expected ", w.name);
    auto got = flat(f);
    MC_CHECK(got == w.flat, "values", via, ": the field ", key, " holds ", show(got), ", expected ", show(w.flat));
    MC_CHECK(&FieldCollection::instance(f) == s.cols[cname].at && &FieldCollection::instance(std::as_const(f)) == s.cols[cname].at, "collection-of", via, ": the collection of ", key, " is another one");
    MC_CHECK(f.boundaryConditions().size() == w.bc.size(), "conditions", via, ": the field ", key, " has ", f.boundaryConditions().size(), " conditions");
}
void checkDoc(const FieldDocument& fd, const std::string& key, const Stored& w, const char* via)
{
    MC_CHECK(fd.id() == key && fd.doc().id() == key, "doc-id", via, ": the document under ", key, " has the id ", fd.id());
    MC_CHECK(fd.name() == w.name, "doc-name", via, ": the document ", key, " says ", fd.name(), ", expected ", w.name);
    MC_CHECK(fd.timeIndex() == w.t && fd.iterationIndex() == w.it && fd.subCycleIndex() == w.sc, "doc-indices", via, ": the document ", key, " has the indices ", fd.timeIndex(), ",",
             fd.iterationIndex(), ",", fd.subCycleIndex(), ", expected ", w.t, ",", w.it, ",", w.sc);
    MC_CHECK(fvcc::validateFieldDoc(fd.doc()), "doc-valid", via, ": the document ", key, " is not valid");
}
void checkSide(Side& s)
{
    MC_CHECK(s.db->size() == s.cols.size(), "collections", "the database has ", s.db->size(), " collections, expected ", s.cols.size());
    for (auto& [name, col] : s.cols)
    {
        MC_CHECK(s.db->contains(name), "collections", "the database has no collection ", name);
        auto& c = FieldCollection::instance(*s.db, name);
        MC_CHECK(&c == col.at && &FieldCollection::instance(std::as_const(*s.db), name) == col.at && &s.db->at<FieldCollection>(name) == col.at && &std::as_const(*s.db).at(name).as<FieldCollection>() == col.at,
                 "instance", "the collection ", name, " is another object than when it was created");
        MC_CHECK(c.name() == name && &c.db() == s.db.get() && c.type() == "FieldDocument", "instance", "the collection ", name, " calls itself ", c.name(), " of ", c.type());
        MC_CHECK(c.size() == col.docs.size(), "size", name, " has ", c.size(), " documents, expected ", col.docs.size());
        auto keys = c.find([](const Document&) { return true; });
        std::sort(keys.begin(), keys.end());
        std::vector<std::string> want;
        for (auto& d : col.docs) want.push_back(d.first);
        MC_CHECK(keys == want, "keys", name, " lists ", keys.size(), " keys that differ from the ", want.size(), " expected");
        for (auto& [key, w] : col.docs)
        {
            MC_CHECK(c.contains(key), "contains", name, " denies having ", key);
            checkDoc(c.fieldDoc(key), key, w, "fieldDoc");
            checkDoc(std::as_const(c).fieldDoc(key), key, w, "const fieldDoc");
            auto use = [&]<typename T>(T)
            {
                checkField(s, name, key, w, c.fieldDoc(key).field<Vol<T>>(), "fieldDoc");
                checkField(s, name, key, w, c.doc(key).get<Vol<T>&>("field"), "doc");
                checkField(s, name, key, w, s.db->at(name).doc(key).get<Vol<T>&>("field"), "database");
                MC_CHECK(&std::as_const(c).fieldDoc(key).field<Vol<T>>() == w.field, "moved", "const fieldDoc: the field ", key, " is another object");
            };
            if (w.vector) use(Vector());
            else use(scalar());
            // searching by metadata
            auto same = c.find([&](const Document& d) { return d.get<std::string>("name") == w.name && d.get<std::int64_t>("timeIndex") == w.t; });
            size_t n = 0;
            for (auto& o : col.docs) n += o.second.name == w.name && o.second.t == w.t;
            MC_CHECK(same.size() == n && std::find(same.begin(), same.end(), key) != same.end(), "find", "searching ", name, " for ", w.name, " at ", w.t, " gives ", same.size(), " keys, expected ", n);
        }
        for (auto& [other, ocol] : s.cols)
            for (auto& d : ocol.docs)
                if (!col.docs.count(d.first)) MC_CHECK(!c.contains(d.first), "contains", name, " claims ", d.first, " of ", other);
        MC_CHECK(!c.contains("") && !c.contains("doc"), "contains", name, " claims a key it never had");
    }
    MC_CHECK(!s.db->contains("nothing"), "collections", "the database claims a collection it never had");
}
constexpr auto NONE = std::numeric_limits<std::int64_t>::max();
template<typename T>
Vol<T> source(const UnstructuredMesh& m, int k)
{
    Conditions<T> c(D());
    c.type = k ? std::vector<int> {FixedGradientBc, ExtrapolatedBc} : std::vector<int> {FixedValueBc, CalculatedBc};
    auto f = conditioned<T>(m, c, distinct<T>(2, 10.0 + 5 * k), distinct<T>(2, 50.0 + 7 * k), k ? "p" : "U");
    return f;
}
template<typename F>
bool refused(F&& f)
{
    try
    {
        f();
    }
    catch (const mc::Violation&)
    {
        throw;
    }
    catch (const mc::ExitCalled&)
    {
        return true;
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}
// a user's own creation function
template<typename T>
struct Own
{
    std::string name;
    const UnstructuredMesh& m;
    std::int64_t t, it, sc;
    int missing; // entry left out
    FieldDocument operator()(Database& db)
    {
        auto src = source<T>(m, 1);
        NeoFOAM::DomainField<T> df(m.exec(), src.internalField(), src.boundaryField());
        Vol<T> f(m.exec(), name, m, df, src.boundaryConditions(), db, "", "");
        Document d;
        if (missing != 1) d.insert("name", name);
        if (missing != 2) d.insert("timeIndex", t);
        if (missing != 3) d.insert("iterationIndex", it);
        if (missing != 4) d.insert("subCycleIndex", sc);
        if (missing != 5) d.insert("field", f);
        return d;
    }
};
struct Registry
{
    Executor ex;
    UnstructuredMesh m;
    Side side[2];
    std::unique_ptr<Vol<scalar>> s[2];
    std::unique_ptr<Vol<Vector>> v[2];
    struct Reg
    {
        int side;
        std::string col, key;
    };
    std::vector<Reg> regs;
    explicit Registry(Executor e) : ex(e), m(D().make(e))
    {
        for (int k = 0; k < 2; ++k) s[k] = std::make_unique<Vol<scalar>>(source<scalar>(m, k)), v[k] = std::make_unique<Vol<Vector>>(source<Vector>(m, k));
    }
    FieldCollection& col(int d, const std::string& name)
    {
        auto& c = FieldCollection::instance(*side[d].db, name);
        auto& w = side[d].cols[name];
        if (!w.at) w.at = &c;
        MC_CHECK(&c == w.at, "instance", "asking for ", name, " again gave another collection");
        return c;
    }
    template<typename T>
    void added(int d, const std::string& name, FieldCollection& c, Vol<T>& f, Stored w)
    {
        MC_CHECK(!side[d].cols[name].docs.count(f.key), "key-reused", "a new registration got the key ", f.key, " that was in use");
        for (auto& s_ : side)
            for (auto& co : s_.cols) MC_CHECK(!co.second.docs.count(f.key), "key-reused", "a new registration got the key ", f.key, " of a field in ", co.first);
        w.field = &f;
        w.vector = std::is_same_v<T, Vector>;
        w.bc.assign(2, 0);
        side[d].cols[name].docs[f.key] = w;
        regs.push_back({d, name, f.key});
        (void)c;
    }
    template<typename T>
    void fromExisting(int d, const std::string& name, const std::string& fieldName, const Vol<T>& src, int given, const Stored* meta)
    {
        auto& c = col(d, name);
        fvcc::CreateFromExistingField<Vol<T>> cr {.name = fieldName, .field = src};
        Stored w {fieldName, NONE, NONE, NONE, flat(src), nullptr, false, {}, {}};
        if (meta) w.t = meta->t, w.it = meta->it, w.sc = meta->sc;
        static const std::int64_t GIVE[] = {7, -3, 0}; // every index gets every value, 0 included, as registrations follow
        size_t turn = regs.size();
        if (given & 1) cr.timeIndex = w.t = GIVE[turn % 3];
        if (given & 2) cr.iterationIndex = w.it = GIVE[(turn + 1) % 3];
        if (given & 4) cr.subCycleIndex = w.sc = GIVE[(turn + 2) % 3];
        auto& f = c.registerField<Vol<T>>(cr);
        MC_CHECK(kh::indexOf(f.exec()) == kh::indexOf(ex) && f.size() == src.size(), "registered-field", "the registered field lives on ", EXEC[kh::indexOf(f.exec())]);
        added(d, name, c, f, w);
        MC_STEP("register ", fieldName, " in ", name, " of database ", d, " as ", f.key, ", indices given ", given);
    }
    Stored& of(const Reg& r) { return side[r.side].cols[r.col].docs.at(r.key); }
    void check()
    {
        for (auto& x : side) checkSide(x);
        std::string t;
        for (auto& x : side)
            for (auto& c : x.cols)
            {
                t += c.first + ":";
                for (auto& d : c.second.docs) t += mc::cat(d.second.name, d.second.t, d.second.it, d.second.sc, show(d.second.flat));
            }
        mc::noteState(t);
    }
    template<typename T>
    Vol<T>& field(const Reg& r)
    {
        return col(r.side, r.col).fieldDoc(r.key).field<Vol<T>>();
    }
    void step()
    {
        static const char* C[] = {"fields", "other"};
        int op = choose(11, "operation");
        int d = 0;
        std::string cn = C[0];
        auto where = [&] { int w = choose(3, "collection"); d = w == 2, cn = C[w == 1]; };
        auto last = [&](bool both = true) -> Reg& { return regs[both && regs.size() > 1 && choose(2, "which") ? regs.size() - 2 : regs.size() - 1]; };
        if (op == 0 || op == 1) // a field that is not registered
        {
            where();
            int k = choose(2, "source");
            if (op == 0) fromExisting<scalar>(d, cn, k ? "U" : s[k]->name, *s[k], k ? 7 : 0, nullptr);
            else fromExisting<Vector>(d, cn, "U", *v[k], k ? 2 : 7, nullptr);
        }
        if (op == 2) // a copy of a registered field
        {
            if (regs.empty()) mc::prune();
            Reg r = last();
            where();
            Stored w = of(r);
            int given = choose(3, "indices given");
            given = given == 2 ? 5 : given * 7;
            if (w.vector) fromExisting<Vector>(d, cn, "copy", field<Vector>(r), given, &w);
            else fromExisting<scalar>(d, cn, "copy", field<scalar>(r), given, &w);
        }
        if (op == 3) // own creation function, possibly incomplete
        {
            where();
            int missing = choose(7, "missing entry");
            if (missing == 6) // the document of a field that is registered elsewhere in the database
            {
                const Reg* from = nullptr;
                for (auto& r : regs)
                    if (r.side == d) from = &r;
                if (!from) mc::prune();
                Reg r = *from;
                auto& c = col(d, cn);
                Stored w {of(r).name, 11, 0, 13, of(r).flat, nullptr, false, {}, {}};
                auto again = [&]<typename T>(T)
                {
                    auto& src = field<T>(r);
                    auto& f = c.registerField<Vol<T>>([&](Database&) { return FieldDocument(src, 11, 0, 13); });
                    MC_CHECK(&f != &src, "registered-field", "the registered field is its own source");
                    added(d, cn, c, f, w);
                    MC_STEP("document of ", r.key, " registered as ", f.key);
                };
                if (of(r).vector) again(Vector());
                else again(scalar());
                return;
            }
            auto& c = col(d, cn);
            Own<scalar> o {"own", m, 4, 5, 6, missing};
            if (missing)
            {
                MC_CHECK(refused([&] { c.registerField<Vol<scalar>>(o); }), "incomplete-accepted", "a document without entry ", missing, " was registered");
                MC_STEP("registering without entry ", missing);
            }
            else
            {
                auto& f = c.registerField<Vol<scalar>>(o);
                added(d, cn, c, f, Stored {"own", 4, 5, 6, flat(source<scalar>(m, 1)), nullptr, false, {}, {}});
                MC_STEP("own registration as ", f.key);
            }
        }
        if (op == 4) // the same document again
        {
            if (regs.empty()) mc::prune();
            Reg r = last();
            auto& c = col(r.side, r.col);
            FieldDocument again(c.fieldDoc(r.key).doc());
            again.name() = "changed", again.timeIndex() = 99;
            int how = choose(2, "insert or register");
            if (how == 0)
            {
                auto k = c.insert(again);
                MC_CHECK(k.empty(), "existing-accepted", "inserting under the existing key ", r.key, " answered '", k, "'");
            }
            else
                MC_CHECK(refused([&] { c.registerField<Vol<scalar>>([&](Database&) { return again; }); }), "existing-accepted", "registering under the existing key ", r.key, " was accepted");
            MC_STEP("again ", r.key);
        }
        if (op == 5) // edit a stored field
        {
            if (regs.empty()) mc::prune();
            Reg r = last();
            double x = 1000 + double(regs.size());
            if (of(r).vector)
            {
                auto& f = field<Vector>(r);
                put(f.internalField(), distinct<Vector>(2, x));
                of(r).flat = flat(f);
            }
            else
            {
                auto& f = field<scalar>(r);
                put(f.internalField(), distinct<scalar>(2, x));
                put(f.boundaryField().value(), distinct<scalar>(2, x + 9));
                auto w = distinct<scalar>(2, x), b = distinct<scalar>(2, x + 9);
                w.insert(w.end(), b.begin(), b.end());
                of(r).flat = w;
            }
            MC_STEP("edit ", r.key);
        }
        if (op == 6) // edit the metadata
        {
            if (regs.empty()) mc::prune();
            Reg r = last();
            auto& fd = col(r.side, r.col).fieldDoc(r.key);
            int e = choose(3, "entry");
            if (e == 0) fd.timeIndex() += 1, of(r).t = of(r).t == NONE ? std::numeric_limits<std::int64_t>::min() : of(r).t + 1;
            if (e == 0 && of(r).t == std::numeric_limits<std::int64_t>::min()) mc::prune(); // overflow is the caller's doing
            if (e == 1) fd.iterationIndex() = of(r).it = 42;
            if (e == 2) fd.subCycleIndex() = of(r).sc = -1;
            MC_STEP("edit entry ", e, " of ", r.key);
        }
        if (op == 7) // the sources are nobody's business after registration
        {
            for (auto& x : s) put(x->internalField(), distinct<scalar>(2, 900)), put(x->boundaryField().value(), distinct<scalar>(2, 901));
            for (auto& x : v) put(x->internalField(), distinct<Vector>(2, 900));
            MC_STEP("edit sources");
        }
        if (op == 8) // ask for a collection
        {
            where();
            col(d, cn);
            MC_STEP("instance ", cn, " of ", d);
        }
        if (op == 9) // lookups that find nothing
        {
            where();
            bool known = side[d].cols.count(cn) > 0;
            MC_CHECK(refused([&] { FieldCollection::instance(std::as_const(*side[d].db), cn); }) == !known, "const-instance", "read-only request for ", known ? "an existing" : "a missing", " collection");
            MC_CHECK(side[d].db->contains(cn) == known, "const-instance", "a read-only request created ", cn);
            if (known) MC_CHECK(refused([&] { col(d, cn).fieldDoc("missing"); }) && refused([&] { std::as_const(col(d, cn)).fieldDoc("missing"); }), "missing-found", "a missing key was found");
            MC_CHECK(!s[0]->registered() && !s[0]->hasDatabase() && refused([&] { FieldCollection::instance(*s[0]); }) && refused([&] { FieldCollection::instance(std::as_const(*s[0])); }) && refused([&] { s[0]->db(); }),
                     "unregistered", "a field that was never registered has a collection");
            MC_STEP("failing lookups in ", cn);
        }
        if (op == 10) // wrong type
        {
            if (regs.empty()) mc::prune();
            Reg r = last(false);
            auto& fd = col(r.side, r.col).fieldDoc(r.key);
            bool no = of(r).vector ? refused([&] { fd.field<Vol<scalar>>(); }) : refused([&] { fd.field<Vol<Vector>>(); });
            MC_CHECK(no, "wrong-type", "a field was returned as a field of another type");
            MC_STEP("wrong type for ", r.key);
        }
    }
};
void histories(int e, int len)
{
    kk::begin(kk::Forward);
    Registry r(execOf(e));
    for (int i = 0; i < len; ++i)
    {
        r.step();
        if (i == len - 1 || choose(1, "") == 0) r.check();
    }
}
}
MC_SCENARIO(serial, "all histories of 3 (4 thorough) out of 11 operations (registrations from plain, registered and own sources in two collections of one and one of another database, repeated keys, edits, failing lookups)") { histories(0, mc::thorough() ? 4 : 3); }
MC_SCENARIO(executors, "all histories of 2 operations on the host and device executors") { histories(1 + choose(2, "executor"), 2); }
MC_SCENARIO(many, "registering up to 64 fields into two collections, every field checked at the end")
{
    kk::begin(kk::Forward);
    Registry r(execOf(0));
    int n = 1 << choose(7, "number"), mix = choose(3, "mix");
    for (int i = 0; i < n; ++i)
    {
        int k = mix == 0 ? 0 : mix == 1 ? i % 2 : (i / 3) % 2;
        if (i % 3 == 2) r.fromExisting<Vector>(0, k ? "other" : "fields", "U", *r.v[i % 2], 7, nullptr);
        else r.fromExisting<scalar>(0, k ? "other" : "fields", i % 4 ? "T" : "U", *r.s[i % 2], i % 8, nullptr);
    }
    r.check();
}
// what a registered copy of a field does with its boundary conditions
MC_SCENARIO(conditions, "registered fields keep the conditions of their source: all pairs of 5 types on two patches x executors x scalar and vector")
{
    auto pk = pick2();
    auto m = D().make(pk.exec);
    auto work = [&]<typename T>(T)
    {
        auto c = pickConditions<T>(D(), 5);
        Database db;
        auto v = distinct<T>(2, 3);
        auto b = distinct<T>(2, 70);
        auto& f = registered(db, conditioned<T>(m, c, v, b));
        auto& g = registered(db, f);
        for (auto* x : {&f, &g})
        {
            x->correctBoundaryConditions();
            checkNear(val(x->boundaryField().value()), c.values(D(), v, b), "conditions", mc::cat("registered field with ", c.text()));
        }
        MC_STEP(c.text());
    };
    if (choose(2, "value type")) work(Vector());
    else work(scalar());
}
