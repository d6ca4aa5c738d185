// The external solver Ginkgo (stand-in: shim/ginkgo) sees the library's systems and settings faithfully.
#include "sparse.hpp"
#include "problem.hpp"
#include "NeoFOAM/linearAlgebra/ginkgo.hpp"
using namespace fv;
using gko::config::pnode;
namespace
{
const int SPACES = 2; // no device here
Dictionary settings()
{
    Dictionary d, criteria;
    criteria.insert("iteration", 3);
    criteria.insert("relative_residual_norm", 1e-7);
    d.insert("solver", std::string("Ginkgo"));
    d.insert("type", std::string("solver::Cg"));
    d.insert("criteria", criteria);
    return d;
}
void begin()
{
    fginkgo::begin();
}
void afresh() { fginkgo::solves.clear(); }
void setFactor(double f) { fginkgo::factor = f; }
int left() { return fginkgo::live; }
std::vector<double> answered() { return fginkgo::solves.empty() ? std::vector<double> {} : fginkgo::solves.back().x; }
// without what the library itself may keep or drop
pnode::map_type solverPart(const pnode& p)
{
    auto m = p.get_map();
    m.erase("solver");
    return m;
}
void handed(const std::vector<double>& a, const std::vector<double>& b, int, const std::string& what)
{
    MC_CHECK(fginkgo::solves.size() == 1, "calls", what, ": ", fginkgo::solves.size(), " solves");
    auto& s = fginkgo::solves[0];
    MC_CHECK(same(s.a, a), "given-matrix", what, ": the solver was given ", show(s.a), ", the system is ", show(a));
    MC_CHECK(same(s.b, b), "given-rhs", what, ": the solver was given the right-hand side ", show(s.b), ", the system has ", show(b));
    pnode::map_type want {{"type", pnode("solver::Cg")}, {"criteria", pnode(pnode::map_type {{"iteration", pnode(3)}, {"relative_residual_norm", pnode(1e-7)}})}};
    MC_CHECK(solverPart(s.config) == want, "given-settings", what, ": the solver was configured with ", s.config.text());
}
#include "C36solve.hpp"
// settings: a dictionary and what it must become (nothing: it must be refused)
struct Setting
{
    bool ok;
    pnode node;
};
Setting put(Dictionary& d, const std::string& key, int kind, int depth);
Setting nested(Dictionary& d, const std::string& key, int depth)
{
    Dictionary in;
    pnode::map_type m;
    bool ok = true;
    int n = choose(mc::thorough() && !depth ? 3 : 2, "entries");
    static const char* K[] = {"k", ""};
    for (int i = 0; i < n; ++i)
    {
        auto s = put(in, K[i], choose(depth ? 10 : 11, "kind"), depth + 1);
        ok = ok && s.ok;
        m.emplace(K[i], s.node);
    }
    d.insert(key, in);
    return {ok, pnode(m)};
}
Setting put(Dictionary& d, const std::string& key, int kind, int depth)
{
    static const char* T[] = {"", "text", "3"};
    switch (kind)
    {
    case 0: d.insert(key, std::string(T[0])); return {true, pnode("")};
    case 1: d.insert(key, std::string(T[1])); return {true, pnode("text")};
    case 2: d.insert(key, T[2]); return {true, pnode("3")};
    case 3: d.insert(key, int(-3)); return {true, pnode(-3)};
    case 4: d.insert(key, int(0)); return {true, pnode(0)};
    case 5: d.insert(key, 4000000000u); return {true, pnode(4000000000ll)};
    case 6: d.insert(key, 1e-7); return {true, pnode(1e-7)};
    case 7: d.insert(key, 0.0); return {true, pnode(0.0)};
    case 8: d.insert(key, 0.1f); return {true, pnode(double(0.1f))};
    case 9: d.insert(key, std::pair<int*, std::vector<double>> {}); return {false, {}};
    default: return nested(d, key, depth);
    }
}
void parsing()
{
    Dictionary d;
    pnode::map_type m;
    bool ok = true;
    int n = choose(3, "entries");
    static const char* K[] = {"a", "b", "solver"};
    for (int i = 0; i < n; ++i)
    {
        auto s = put(d, K[i], choose(11, "kind"), i < 2 ? 0 : 1);
        ok = ok && s.ok;
        m.emplace(K[i], s.node);
    }
    auto keys = d.keys();
    pnode got;
    bool no = false;
    try
    {
        got = la::ginkgo::parse(d);
    }
    catch (const NeoFOAM::NeoFOAMException&)
    {
        no = true;
    }
    pnode want(m);
    MC_STEP(want.text());
    MC_CHECK(no != ok, "settings-refused", ok ? mc::cat("the settings ", want.text(), " were refused") : mc::cat("settings of an unsupported type became ", got.text()));
    if (ok) MC_CHECK(got == want, "settings", "the settings ", want.text(), " became ", got.text());
    MC_CHECK(d.keys() == keys, "settings-changed", "the settings were changed");
}
void failing()
{
    int e = choose(SPACES, "executor");
    kk::begin(kk::Forward);
    begin();
    fginkgo::failSolve = true;
    auto ex = execOf(e);
    la::CSRMatrix<scalar, localIdx> m(make<scalar>(ex, {2, 4}), make<localIdx>(ex, {0, 1}), make<localIdx>(ex, {0, 1, 2}));
    la::LinearSystem<scalar, localIdx> s(m, make<scalar>(ex, {1, 1}));
    Field<scalar> x(make<scalar>(ex, {7, 8}));
    bool no = refused([&] { la::Solver(ex, settings()).solve(s, x); });
    MC_CHECK(no, "failed-silently", "the failure of the solver is not reported");
    MC_CHECK(same(val(x), std::vector<scalar> {7, 8}), "failed-but-changed", "after a failed solve the solution is ", show(val(x)));
    MC_CHECK(fginkgo::live == 0, "released", fginkgo::live, " objects are left over");
    MC_STEP("failing");
}
void device()
{
    kk::begin(kk::Forward);
    begin();
    MC_CHECK(refused([&] { la::Solver(execOf(2), settings()); }), "device", "a solver is made for a device Ginkgo is not built for");
    MC_CHECK(fginkgo::live == 0, "released", fginkgo::live, " objects are left over");
    MC_STEP("device");
}
}
MC_SCENARIO(ginkgo_systems, "Ginkgo: all matrices of up to 2 (3 thorough) rows with every ordered selection of columns per row, larger unsymmetric ones x executors: matrix, right-hand side, settings and answer") { systems(); }
MC_SCENARIO(ginkgo_three, "Ginkgo: all matrices of 3 rows with every ordered selection of columns per row (a quarter of them in quick runs)") { three(); }
MC_SCENARIO(ginkgo_reuse, "Ginkgo: all histories of 4 (5 thorough) solves of three systems, copies, moves and destructions of solvers") { reuse(); }
MC_SCENARIO(ginkgo_steady, "Ginkgo: steady equations on 4 meshes x conditions x all sets of up to 2 of 7 terms x executors, through dsl::solve") { steady(); }
MC_SCENARIO(ginkgo_parsing, "Ginkgo: all settings of up to 2 entries of 10 kinds or nested twice (1 entry, 2 thorough)") { parsing(); }
MC_SCENARIO(ginkgo_failing, "Ginkgo: a failing solve is reported and leaves the solution and no objects behind") { failing(); }
MC_SCENARIO(ginkgo_device, "Ginkgo: no solver for a device it is not built for") { device(); }
