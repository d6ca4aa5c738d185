// Old-time fields form one chain per field.
#include "bcs.hpp"
#include <map>
#include <memory>
using namespace fv;
using NeoFOAM::Database;
using NeoFOAM::Document;
using fvcc::FieldCollection;
using fvcc::FieldDocument;
using fvcc::OldTimeCollection;

namespace
{
const MeshData& D()
{
    static MeshData d = line({0, 1, 3});
    return d;
}
constexpr int LEVELS = 3;
struct Level
{
    void* at;
    std::string key, name;
    std::int64_t t, it, sc;
    std::vector<double> cells, boundary;
};
template<typename T>
std::vector<double> flat(const std::vector<T>& v)
{
    std::vector<double> r;
    for (auto& x : v)
        if constexpr (std::is_same_v<T, scalar>) r.push_back(x);
        else r.push_back(x[0]), r.push_back(x[1]), r.push_back(x[2]);
    return r;
}
struct Chain
{
    int db;
    std::string col;
    bool vector;
    std::vector<Level> levels; // 0 is the field itself
};
template<typename F>
bool refused(F&& f)
{
    try
    {
        f();
    }
    catch (const mc::Violation&)
    {
        throw;
    }
    catch (const mc::ExitCalled&)
    {
        return true;
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}
struct World
{
    Executor ex;
    UnstructuredMesh m;
    Database db[2];
    std::vector<Chain> chains;
    std::map<std::pair<int, std::string>, int> extra; // registered fields without levels
    explicit World(Executor e, int n) : ex(e), m(D().make(e))
    {
        // equal names in different collections and databases, two fields in one collection
        static const struct
        {
            int db;
            const char* col;
            const char* name;
            bool vector;
        } F[] = {{0, "a", "U", false}, {0, "a", "T", false}, {0, "b", "U", false}, {1, "a", "U", false}, {0, "a", "V", true}};
        for (int i = 0; i < n; ++i)
        {
            if (F[i].vector) create<Vector>(F[i].db, F[i].col, F[i].name, i);
            else create<scalar>(F[i].db, F[i].col, F[i].name, i);
        }
    }
    template<typename T>
    void create(int d, const std::string& col, const std::string& name, int i)
    {
        Conditions<T> c(D());
        c.type = {FixedGradientBc, CalculatedBc};
        auto f = conditioned<T>(m, c, distinct<T>(2, 10.0 * (i + 1)), distinct<T>(2, 10.0 * (i + 1) + 5), name);
        auto& fc = FieldCollection::instance(db[d], col);
        auto& r = fc.registerField<Vol<T>>(fvcc::CreateFromExistingField<Vol<T>> {.name = name, .field = f, .timeIndex = 5 + i, .iterationIndex = 2 - i, .subCycleIndex = -i});
        chains.push_back({d, col, std::is_same_v<T, Vector>, {Level {&r, r.key, name, 5 + i, 2 - i, -i, flat(val(f.internalField())), flat(val(f.boundaryField().value()))}}});
    }
    template<typename T>
    Vol<T>& at(Chain& c, int l)
    {
        return *static_cast<Vol<T>*>(c.levels[size_t(l)].at);
    }
    // asks for the level below level l
    template<typename T>
    void request(Chain& c, int l)
    {
        auto& next = c.levels[size_t(l)];
        Vol<T>& got = fvcc::oldTime(at<T>(c, l));
        if (size_t(l + 1) < c.levels.size())
        {
            MC_CHECK(&got == c.levels[size_t(l + 1)].at, "another-level", "asking for the old time of ", next.name, " again gave another field (", got.name, ", key ", got.key, ")");
            return;
        }
        for (auto& o : chains)
            for (auto& x : o.levels) MC_CHECK(x.at != &got, "mixed-levels", "the old time of ", next.name, " is the stored field ", x.name, " of ", o.col);
        Level n = next;
        n.at = &got, n.key = got.key, n.name = next.name + "_0", n.t = next.t - 1;
        c.levels.push_back(n);
    }
    void check()
    {
        std::map<std::pair<int, std::string>, size_t> fields, olds;
        std::string s;
        for (auto& c : chains)
        {
            fields[{c.db, c.col}] += c.levels.size();
            olds[{c.db, c.col}] += c.levels.size() - 1;
            auto& fc = FieldCollection::instance(db[c.db], c.col);
            for (size_t l = 0; l < c.levels.size(); ++l)
            {
                auto& w = c.levels[l];
                auto look = [&]<typename T>(T)
                {
                    auto& f = at<T>(c, int(l));
                    auto v = flat(val(f.internalField())), b = flat(val(f.boundaryField().value()));
                    MC_CHECK(v == w.cells && b == w.boundary, "values", "level ", l, " of ", c.levels[0].name, " in ", c.col, " holds ", show(v), show(b), ", expected ", show(w.cells), show(w.boundary));
                    MC_CHECK(f.key == w.key && f.fieldCollectionName == c.col && f.registered() && &f.db() == &db[c.db] && f.name == w.name, "identity", "level ", l, " of ", c.levels[0].name, ": key ", f.key, ", collection ",
                             f.fieldCollectionName, ", name ", f.name, "; expected ", w.key, ", ", c.col, ", ", w.name);
                    MC_CHECK(&fc.fieldDoc(w.key).field<Vol<T>>() == &f, "identity", "level ", l, " of ", c.levels[0].name, " is not found under its key");
                    MC_CHECK(kh::indexOf(f.exec()) == kh::indexOf(ex), "executor", "level ", l, " of ", w.name, " is on ", EXEC[kh::indexOf(f.exec())]);
                    // read only requests
                    if (l + 1 < c.levels.size()) MC_CHECK(&fvcc::oldTime(std::as_const(f)) == c.levels[l + 1].at, "another-level", "the read-only request for the old time of ", w.name, " gave another field");
                };
                if (c.vector) look(Vector());
                else look(scalar());
                auto& d = fc.fieldDoc(w.key);
                MC_CHECK(d.timeIndex() == w.t && d.iterationIndex() == w.it && d.subCycleIndex() == w.sc && d.name() == w.name, "metadata", "level ", l, " of ", c.levels[0].name, " has the name ", d.name(), " and indices ",
                         d.timeIndex(), ",", d.iterationIndex(), ",", d.subCycleIndex(), "; expected ", w.name, ", ", w.t, ",", w.it, ",", w.sc);
                s += mc::cat(c.db, c.col, w.name, w.t, show(w.cells), ";");
            }
        }
        for (auto& [k, n] : extra) fields[k] += size_t(n);
        for (auto& [k, n] : fields)
        {
            auto& fc = FieldCollection::instance(db[k.first], k.second);
            MC_CHECK(fc.size() == n, "count", "collection ", k.second, " of database ", k.first, " has ", fc.size(), " fields, expected ", n);
            if (!olds[k]) continue;
            auto& oc = OldTimeCollection::instance(fc);
            MC_CHECK(oc.size() == olds[k], "links", "collection ", k.second, " of database ", k.first, " has ", oc.size(), " old-time links, expected ", olds[k]);
            MC_CHECK(&OldTimeCollection::instance(std::as_const(fc)) == &oc && &OldTimeCollection::instance(db[k.first], k.second + "_oldTime", k.second) == &oc, "links", "the old-time collection of ", k.second, " is not unique");
            for (auto& c : chains)
            {
                if (c.db != k.first || c.col != k.second) continue;
                for (size_t l = 0; l + 1 < c.levels.size(); ++l)
                {
                    auto id = oc.findNextTime(c.levels[l].key);
                    MC_CHECK(id != "" && id == oc.findPreviousTime(c.levels[l + 1].key), "links", "level ", l, " of ", c.levels[0].name, " has no unique link to level ", l + 1);
                    auto& o = std::as_const(oc).oldTimeDoc(id);
                    MC_CHECK(o.nextTime() == c.levels[l].key && o.previousTime() == c.levels[l + 1].key && o.currentTime() == c.levels[0].key && o.level() == int(l + 1), "link-data", "the link of level ", l, " of ", c.levels[0].name, " says level ",
                             o.level(), ", next ", o.nextTime(), ", previous ", o.previousTime(), ", current ", o.currentTime());
                }
                MC_CHECK(oc.findNextTime(c.levels.back().key) == "" && oc.findPreviousTime(c.levels[0].key) == "", "links", "the chain of ", c.levels[0].name, " does not end");
            }
        }
        mc::noteState(s);
    }
    void onChain(const Chain& c, auto&& f)
    {
        if (c.vector) f(Vector());
        else f(scalar());
    }
    void step(int n)
    {
        int op = choose(7, "operation");
        auto& c = chains[size_t(choose(n, "field"))];
        int have = int(c.levels.size());
        if (op == 0) // old time, down to some level
        {
            int depth = 1 + choose(LEVELS, "levels");
            MC_STEP("old time ", depth, " of ", c.levels[0].name, " in ", c.col, " of ", c.db);
            for (int l = 0; l < depth; ++l) onChain(c, [&]<typename T>(T) { request<T>(c, l); });
        }
        if (op == 1) // assignment to a level
        {
            int l = choose(have, "level");
            double x = 200 + 10 * double(l) + double(c.levels[size_t(l)].cells[0] > 100);
            MC_STEP("assign to level ", l, " of ", c.levels[0].name, " in ", c.col);
            onChain(c, [&]<typename T>(T)
            {
                auto v = distinct<T>(2, x), b = distinct<T>(2, x + 3);
                put(at<T>(c, l).internalField(), v), put(at<T>(c, l).boundaryField().value(), b);
                c.levels[size_t(l)].cells = flat(v), c.levels[size_t(l)].boundary = flat(b);
            });
        }
        if (op == 2) // shift: each level takes the one above, as time stepping does
        {
            MC_STEP("shift ", c.levels[0].name, " in ", c.col);
            onChain(c, [&]<typename T>(T)
            {
                for (int l = have - 1; l > 0; --l)
                {
                    fvcc::oldTime(at<T>(c, l - 1)).internalField() = at<T>(c, l - 1).internalField();
                    c.levels[size_t(l)].cells = c.levels[size_t(l - 1)].cells;
                }
            });
        }
        if (op == 3) // read-only request: finds what is there, never creates
        {
            int l = have - 1; // the oldest level
            MC_STEP("read-only request below level ", l, " of ", c.levels[0].name, " in ", c.col);
            onChain(c, [&]<typename T>(T)
            {
                const Vol<T>& f = at<T>(c, l);
                MC_CHECK(refused([&] { fvcc::oldTime(f); }), "read-only-created", "a read-only request below the oldest level was answered");
            });
        }
        if (op == 4) // the indices of the current field move on
        {
            MC_STEP("next time index of ", c.levels[0].name, " in ", c.col);
            auto& d = FieldCollection::instance(db[c.db], c.col).fieldDoc(c.levels[0].key);
            d.timeIndex() += 10, c.levels[0].t += 10;
            d.iterationIndex() = 8, c.levels[0].it = 8;
        }
        if (op == 5) // another field of the same name
        {
            MC_STEP("register another ", c.levels[0].name, " in ", c.col);
            auto& fc = FieldCollection::instance(db[c.db], c.col);
            onChain(c, [&]<typename T>(T)
            {
                auto& f = at<T>(c, have - 1);
                fc.registerField<Vol<T>>(fvcc::CreateFromExistingField<Vol<T>> {.name = c.levels[0].name, .field = f});
            });
            ++extra[{c.db, c.col}];
        }
        if (op == 6) // an unregistered field has no levels
        {
            MC_STEP("old time of an unregistered field");
            auto f = volField<scalar>(m, {1, 2}, {3, 4}, c.levels[0].name);
            MC_CHECK(refused([&] { fvcc::oldTime(f); }) && refused([&] { fvcc::oldTime(std::as_const(f)); }), "unregistered", "an unregistered field has an old time");
        }
    }
};
void histories(Executor ex, int fields, int len)
{
    kk::begin(kk::Forward);
    World w(ex, fields);
    w.check();
    for (int i = 0; i < len; ++i) w.step(fields);
    w.check();
    // levels asked for later than everything else
    if (choose(2, "then"))
    {
        for (auto& c : w.chains) w.onChain(c, [&]<typename T>(T) { for (int l = 0; l < LEVELS; ++l) w.template request<T>(c, l); });
        w.check();
    }
}
}
MC_SCENARIO(two_fields, "all histories of 3 (4 thorough) operations (old time to level 1..3, assignments, shifts, read-only requests, index changes, registrations of namesakes) on two fields of one collection") { histories(execOf(0), 2, mc::thorough() ? 4 : 3); }
MC_SCENARIO(namesakes, "all histories of 2 (3 thorough) operations on five fields: namesakes in another collection and another database, another value type") { histories(execOf(0), 5, mc::thorough() ? 3 : 2); }
MC_SCENARIO(executors, "all histories of 2 operations on five fields on the host and device executors") { histories(execOf(1 + choose(2, "executor")), 5, 2); }
MC_SCENARIO(deep, "chains of 12 levels of three fields built in every order of the fields, level by level")
{
    kk::begin(kk::Forward);
    World w(execOf(0), 3);
    int order = choose(6, "order");
    static const int O[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    bool interleaved = choose(2, "interleaved");
    for (int i = 0; i < 36; ++i)
    {
        int f = interleaved ? O[order][i % 3] : O[order][i / 12], l = interleaved ? i / 3 : i % 12;
        w.request<scalar>(w.chains[size_t(f)], l);
        double x = 500 + i;
        auto& c = w.chains[size_t(f)];
        put(w.at<scalar>(c, l + 1).internalField(), {x, -x});
        c.levels[size_t(l + 1)].cells = {x, -x};
        MC_STEP("level ", l + 1, " of field ", f);
    }
    w.check();
}
