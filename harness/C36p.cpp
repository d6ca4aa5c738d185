// The external solver PETSc (stand-in: shim/petsc) sees the library's systems faithfully.
#include "sparse.hpp"
#include "problem.hpp"
#include "NeoFOAM/linearAlgebra/petsc.hpp"
using namespace fv;
using la::petsc::petscSolver;
namespace
{
const int SPACES = 3;
Dictionary settings()
{
    Dictionary d;
    d.insert("solver", std::string("Petsc"));
    return d;
}
void begin()
{
    fpetsc::begin();
}
void afresh() { fpetsc::solves.clear(); }
void setFactor(double f) { fpetsc::factor = f; }
int left() { return fpetsc::live; }
std::vector<double> answered() { return fpetsc::solves.empty() ? std::vector<double> {} : fpetsc::solves.back().x; }
void handed(const std::vector<double>& a, const std::vector<double>& b, int e, const std::string& what)
{
    MC_CHECK(fpetsc::solves.size() == 1, "calls", what, ": ", fpetsc::solves.size(), " solves");
    auto& s = fpetsc::solves[0];
    MC_CHECK(same(s.a, a), "given-matrix", what, ": the solver was given ", show(s.a), ", the system is ", show(a));
    MC_CHECK(same(s.b, b), "given-rhs", what, ": the solver was given the right-hand side ", show(s.b), ", the system has ", show(b));
    MC_CHECK((s.matType.find("kokkos") != std::string::npos) == (e == 2), "space", what, ": matrices on ", EXEC[e], " became ", s.matType);
}
#include "C36solve.hpp"
// more unknowns than fit on the stack many times over
void large()
{
    int e = choose(3, "executor");
    size_t n = 1000000;
    kk::begin(kk::Forward);
    begin();
    std::vector<scalar> v, b;
    std::vector<localIdx> c, r {0};
    for (size_t i = 0; i < n; ++i) v.push_back(2 + double(i % 5)), b.push_back(double(i)), c.push_back(localIdx(i)), r.push_back(localIdx(i + 1));
    std::vector<double> want;
    for (size_t i = 0; i < n; ++i) want.push_back(b[i] / v[i]);
    la::CSRMatrix<scalar, localIdx> m(make(execOf(e), v), make(execOf(e), c), make(execOf(e), r));
    la::LinearSystem<scalar, localIdx> s(m, make(execOf(e), b));
    Field<scalar> x(make(execOf(e), std::vector<scalar>(n, 0.0)));
    la::Solver(execOf(e), settings()).solve(s, x);
    auto got = val(x);
    MC_CHECK(got == want, "large", "the solution of a large diagonal system is not the one the solver answered");
    MC_STEP("large");
}
void failing()
{
    int e = choose(3, "executor");
    kk::begin(kk::Forward);
    begin();
    fpetsc::failSolve = 76;
    auto ex = execOf(e);
    la::CSRMatrix<scalar, localIdx> m(make<scalar>(ex, {2, 4}), make<localIdx>(ex, {0, 1}), make<localIdx>(ex, {0, 1, 2}));
    la::LinearSystem<scalar, localIdx> s(m, make<scalar>(ex, {1, 1}));
    Field<scalar> x(make<scalar>(ex, {7, 8}));
    refused([&] { la::Solver(ex, settings()).solve(s, x); });
    MC_CHECK(same(val(x), std::vector<scalar> {7, 8}), "failed-but-changed", "after a failed solve the solution is ", show(val(x)));
    MC_CHECK(fpetsc::live == 0, "released", fpetsc::live, " objects are left over");
    MC_STEP("failing");
}
}
MC_SCENARIO(petsc_systems, "PETSc: all matrices of up to 2 (3 thorough) rows with every ordered selection of columns per row, larger unsymmetric ones x executors: matrix, right-hand side and answer") { systems(); }
MC_SCENARIO(petsc_three, "PETSc: all matrices of 3 rows with every ordered selection of columns per row (a quarter of them in quick runs)") { three(); }
MC_SCENARIO(petsc_reuse, "PETSc: all histories of 4 (5 thorough) solves of three systems, copies, moves and destructions of solvers") { reuse(); }
MC_SCENARIO(petsc_steady, "PETSc: steady equations on 4 meshes x conditions x all sets of up to 2 of 7 terms x executors, through dsl::solve") { steady(); }
MC_SCENARIO(petsc_large, "PETSc: 1000000 unknowns") { large(); }
MC_SCENARIO(petsc_failing, "PETSc: a failing solve leaves the solution and no objects behind") { failing(); }
