// Every parallel kernel under every interleaving of its iterations (to a bound).
#include "terms.hpp"
#include "standin_solver.hpp"
#include "sched.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
#include "NeoFOAM/timeIntegration/backwardEuler.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenGrad.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/auxiliary/coNum.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/geometryScheme.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/cellToFaceStencil.hpp"
#include "NeoFOAM/fields/fieldFreeFunctions.hpp"
#include "NeoFOAM/fields/segmentedField.hpp"
#include "NeoFOAM/fields/operations/sum.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include <iostream>
using namespace fv;

namespace
{
constexpr auto IMP = dsl::Operator::Type::Implicit;
constexpr auto EXP = dsl::Operator::Type::Explicit;
using Out = std::vector<double>;
void add(Out& o, double v) { o.push_back(v); }
void add(Out& o, const Vector& v)
{
    for (size_t c = 0; c < 3; ++c) o.push_back(v[c]);
}
template<typename T>
void add(Out& o, const Field<T>& f)
{
    for (const auto& v : val(f)) add(o, v);
}
template<typename I>
    requires std::is_integral_v<I>
void add(Out& o, I v)
{
    o.push_back(double(v));
}
template<typename T>
void add(Out& o, const System<T>& s)
{
    add(o, s.matrix().values());
    add(o, s.rhs());
}
struct Capture
{
    std::ostringstream o;
    std::streambuf* old = std::cout.rdbuf(o.rdbuf());
    ~Capture() { std::cout.rdbuf(old); }
};
// meshes of few faces where many of them meet in the same cell
std::vector<MeshData>& meshes()
{
    static std::vector<MeshData> L = []
    {
        std::vector<MeshData> l;
        l.push_back(abstractMesh(3, {{0, 1}, {1, 2}}, {{1, 1}, {1}}));            // three boundary faces of one cell
        l.push_back(abstractMesh(4, {{0, 3}, {1, 3}, {2, 3}}, {{0, 0, 3}}));      // all faces share one neighbour
        l.push_back(abstractMesh(4, {{0, 3}, {0, 1}, {0, 2}}, {{0}, {}, {3, 0}})); // all faces share one owner
        l.push_back(grid({0, 2}, {0, 0.5}, {0, 1, 1, 0}));                        // one cell
        l.push_back(line({0, 0.5, 1, 3}, true));
        return l;
    }();
    return L;
}
// everything a subject refers to is made before the kernels count
struct Ctx
{
    const MeshData& d;
    Executor exec;
    World<scalar> ws;
    World<Vector> wv;
    NeoFOAM::Database db;
    Vol<scalar>& phi;
    Vol<Vector>& u;
    System<scalar> sys;
    std::unique_ptr<System<Vector>> sysV;
    Coefficient co;
    Field<scalar> fa, fb;
    Field<Vector> va, vb;
    Field<localIdx> li;
    Ctx(const MeshData& d_, const Executor& e)
        : d(d_), exec(e), ws(d, e, conds<scalar>(d)), wv(d, e, conds<Vector>(d)), phi(registered(db, conditioned<scalar>(ws.m, ws.c, distinct<scalar>(d.nCells(), 1), distinct<scalar>(d.nB(), 40)))),
          u(registered(db, conditioned<Vector>(ws.m, wv.c, distinct<Vector>(d.nCells(), 1), distinct<Vector>(d.nB(), 40), "U"))), sys(emptySystem<scalar>(ws.m)), co(3, e, d.nCells()), fa(kh::make(e, distinct<scalar>(5, 1))),
          fb(kh::make(e, distinct<scalar>(5, 9))), va(kh::make(e, distinct<Vector>(5, 1))), vb(kh::make(e, distinct<Vector>(5, 9))), li(kh::make(e, std::vector<localIdx> {2, 0, 3, 1, 4}))
    {
        prefill(sys);
        sysV = std::make_unique<System<Vector>>(emptySystem<Vector>(ws.m));
        prefill(*sysV);
    }
    template<typename T>
    static Conditions<T> conds(const MeshData& d)
    {
        Conditions<T> c(d);
        for (size_t p = 0; p < c.type.size(); ++p) c.type[p] = p % 2 ? FixedGradientBc : FixedValueBc;
        return c;
    }
    template<typename T>
    Vol<T>& unknown()
    {
        if constexpr (std::is_same_v<T, scalar>) return phi;
        else return u;
    }
    template<typename T>
    System<T>& system()
    {
        if constexpr (std::is_same_v<T, scalar>) return sys;
        else return *sysV;
    }
    template<typename T>
    World<T>& world()
    {
        if constexpr (std::is_same_v<T, scalar>) return ws;
        else return wv;
    }
    UnstructuredMesh& mesh() { return ws.m; }
};
struct Subject
{
    const char* name;
    bool meshes; // depends on the mesh
    void (*run)(Ctx&, Out&);
    void (*prepare)(Ctx&) = nullptr;
};
Input gauss(std::initializer_list<const char*> l) { return Input(tokens(l)); }
template<typename T, int S>
void divExplicit(Ctx& c, Out& o)
{
    fvcc::DivOperator<T> op(EXP, c.ws.flux, c.unknown<T>(), gauss({"Gauss", SCHEME[S]}));
    op.getCoefficient() *= c.co.get();
    auto t = kh::make(c.exec, distinct<T>(c.d.nCells(), -3));
    op.explicitOperation(t);
    add(o, t);
}
template<typename T, int S>
void divImplicit(Ctx& c, Out& o)
{
    fvcc::DivOperator<T> op(IMP, c.ws.flux, c.unknown<T>(), gauss({"Gauss", SCHEME[S]}));
    op.getCoefficient() *= c.co.get();
    op.implicitOperation(c.system<T>());
    add(o, c.system<T>());
}
template<typename T>
void lapExplicit(Ctx& c, Out& o)
{
    fvcc::LaplacianOperator<T> op(EXP, c.ws.gamma, c.unknown<T>(), gauss({"Gauss", "linear", "uncorrected"}));
    auto t = kh::make(c.exec, distinct<T>(c.d.nCells(), -3));
    op.explicitOperation(t);
    add(o, t);
}
template<typename T>
void lapImplicit(Ctx& c, Out& o)
{
    fvcc::LaplacianOperator<T> op(IMP, c.ws.gamma, c.unknown<T>(), gauss({"Gauss", "linear", "uncorrected"}));
    op.implicitOperation(c.system<T>());
    add(o, c.system<T>());
}
template<typename T>
void surfaceSum(Ctx& c, Out& o)
{
    auto t = kh::make(c.exec, distinct<T>(c.d.nCells(), -3));
    fvcc::SurfaceIntegrate<T>(c.world<T>().surf).explicitOperation(t);
    add(o, t);
}
template<typename T>
void source(Ctx& c, Out& o)
{
    auto t = kh::make(c.exec, distinct<T>(c.d.nCells(), -3));
    fvcc::SourceTerm<T>(EXP, c.ws.coeff, c.unknown<T>()).explicitOperation(t);
    add(o, t);
    fvcc::SourceTerm<T>(IMP, c.ws.coeff, c.unknown<T>()).implicitOperation(c.system<T>());
    add(o, c.system<T>());
}
template<typename T>
void ddt(Ctx& c, Out& o)
{
    fvcc::DdtOperator<T> e(EXP, c.unknown<T>());
    auto t = kh::make(c.exec, distinct<T>(c.d.nCells(), -3));
    e.explicitOperation(t, 2.0, 0.5);
    add(o, t);
    fvcc::DdtOperator<T> i(IMP, c.unknown<T>());
    i.implicitOperation(c.system<T>(), 2.0, 0.5);
    add(o, c.system<T>());
}
template<typename T>
void ddtPrepare(Ctx& c)
{
    put(fvcc::oldTime(c.unknown<T>()).internalField(), distinct<T>(c.d.nCells(), 77));
}
template<typename T, int S>
void interpolate(Ctx& c, Out& o)
{
    fvcc::SurfaceInterpolation<T> s(c.exec, c.mesh(), gauss({SCHEME[S]}));
    auto dst = surfField<T>(c.mesh(), distinct<T>(c.d.nFaces(), 500));
    s.interpolate(c.ws.flux, c.unknown<T>(), dst);
    add(o, dst.internalField());
    if (S == LinearScheme) add(o, s.weight(c.unknown<T>()).internalField());
    else add(o, s.weight(c.ws.flux, c.unknown<T>()).internalField());
}
template<typename T>
void normalGrad(Ctx& c, Out& o)
{
    fvcc::FaceNormalGradient<T> g(c.exec, c.mesh(), gauss({"uncorrected"}));
    add(o, g.faceNormalGrad(c.unknown<T>()).internalField());
}
template<typename T>
void boundaries(Ctx& c, Out& o)
{
    c.unknown<T>().correctBoundaryConditions();
    auto& b = c.unknown<T>().boundaryField();
    add(o, b.value());
    if constexpr (std::is_same_v<T, scalar>) add(o, b.valueFraction());
}
template<typename T, int B>
void oneBoundary(Ctx& c, Out& o)
{
    Conditions<T> k(c.d);
    for (auto& t : k.type) t = B;
    auto f = conditioned<T>(c.mesh(), k, distinct<T>(c.d.nCells(), 1), distinct<T>(c.d.nB(), 40));
    f.correctBoundaryConditions();
    add(o, f.boundaryField().value());
    add(o, f.boundaryField().valueFraction());
}
template<typename T>
void surfaceBoundary(Ctx& c, Out& o)
{
    std::vector<fvcc::SurfaceBoundary<T>> bs;
    for (size_t p = 0; p < c.d.nPatches(); ++p)
    {
        Dictionary k({{"type", std::string("fixedValue")}});
        k.insert("fixedValue", of<T>(2.5 + double(p)));
        bs.push_back(fvcc::SurfaceBoundary<T>(c.mesh(), k, p));
    }
    Surf<T> f(c.exec, "s", c.mesh(), bs);
    put(f.internalField(), distinct<T>(c.d.nFaces(), 1));
    put(f.boundaryField().value(), distinct<T>(c.d.nB(), 40));
    f.correctBoundaryConditions();
    add(o, f.internalField());
    add(o, f.boundaryField().value());
}
template<typename T>
void fieldArithmetic(const Field<T>& a, const Field<T>& b, const Field<scalar>& s, Out& o)
{
    Field<T> r(a);
    r += b;
    add(o, r);
    r -= a;
    add(o, r);
    add(o, a + b);
    add(o, a - b);
    if constexpr (std::is_same_v<T, scalar>)
    {
        r *= s;
        add(o, r);
    }
    NeoFOAM::scalarMul(r, scalar(2.5));
    add(o, r);
    NeoFOAM::fill(r, of<T>(3));
    add(o, r);
    NeoFOAM::fill(r, of<T>(4), {1, 4});
    add(o, r);
    NeoFOAM::setField(r, a.view());
    add(o, r);
    T total {};
    NeoFOAM::SumKernel kernel {};
    std::visit([&](const auto& exec) { kernel(exec, a, total); }, a.exec());
    add(o, total);
}
template<typename T>
void fieldMaps(const Field<T>& a, Out& o)
{
    Field<T> r(a.exec(), a.size());
    auto v = a.view();
    r.apply(KOKKOS_LAMBDA(const std::size_t i) { return v[i] + v[v.size() - 1 - i]; });
    add(o, r);
    NeoFOAM::map(r, KOKKOS_LAMBDA(const std::size_t i) { return v[i]; });
    add(o, r);
    Field<T> copied(a.exec(), a);
    add(o, copied);
}
void geometry(Ctx& c, Out& o)
{
    fvcc::GeometryScheme g(c.mesh());
    g.update();
    add(o, g.weights().internalField());
    add(o, g.deltaCoeffs().internalField());
    add(o, g.nonOrthDeltaCoeffs().internalField());
}
void mesh1D(Ctx& c, Out& o)
{
    auto m = NeoFOAM::create1DUniformMesh(c.exec, 4);
    add(o, m.cellCentres());
    add(o, m.cellVolumes());
    add(o, m.faceAreas());
    add(o, m.faceCentres());
    add(o, m.magFaceAreas());
    add(o, m.faceOwner());
    add(o, m.faceNeighbour());
    add(o, m.points());
}
void coNum(Ctx& c, Out& o)
{
    Capture k;
    add(o, fvcc::computeCoNum(c.ws.flux, 0.5));
}
void grad(Ctx& c, Out& o)
{
    auto t = volField<Vector>(c.mesh(), distinct<Vector>(c.d.nCells(), -300), distinct<Vector>(c.d.nB(), 900), "t");
    fvcc::GaussGreenGrad g(c.exec, c.mesh());
    g.grad(c.phi, t);
    add(o, t.internalField());
}
void pattern(Ctx& c, Out& o)
{
    fvcc::SparsityPattern sp(c.mesh());
    auto row = val(sp.rowPtrs()), col = val(sp.colIdxs()), own = val(sp.ownerOffset()), nei = val(sp.neighbourOffset()), diag = val(sp.diagOffset());
    auto at = [&](size_t i, size_t off) { return row[i] + off < col.size() ? double(col[row[i] + off]) : -1.0; };
    // the order within the triangles of a row is that of the atomics: compare what the offsets mean
    for (size_t f = 0; f < c.d.nInt; ++f) add(o, at(size_t(c.d.own[f]), own[f])), add(o, at(size_t(c.d.nei[f]), nei[f]));
    for (size_t i = 0; i < c.d.nCells(); ++i)
    {
        add(o, at(i, diag[i]));
        std::sort(col.begin() + long(row[i]), col.begin() + long(row[i + 1]));
    }
    for (auto r : row) add(o, r);
    for (auto k : col) add(o, k);
}
void stencil(Ctx& c, Out& o)
{
    auto s = fvcc::CellToFaceStencil(c.mesh()).computeStencil();
    auto [v, off] = s.view();
    auto off_ = kk::peek(off.data(), off.size());
    auto v_ = kk::peek(v.data(), v.size());
    for (size_t i = 0; i + 1 < off_.size(); ++i)
    { // the order within a cell is that of the atomics
        std::sort(v_.begin() + long(off_[i]), v_.begin() + long(off_[i + 1]));
        add(o, off_[i]);
    }
    for (auto x : v_) add(o, x);
}
void multiply(Ctx& c, Out& o) { add(o, la::spmv(c.sys, c.phi.internalField())); }
void convert(Ctx& c, Out& o)
{
    auto k = la::convertLinearSystem<scalar, localIdx, float, int>(c.sys);
    add(o, k.matrix().values());
    add(o, k.matrix().rowPtrs());
    add(o, k.matrix().colIdxs());
    add(o, k.rhs());
}
void reset(Ctx& c, Out& o)
{
    c.sys.reset();
    add(o, c.sys);
}
void segmented(Ctx& c, Out& o)
{
    NeoFOAM::SegmentedField<scalar, localIdx> s(c.li);
    auto [v, seg] = s.view();
    for (auto x : kk::peek(seg.data(), seg.size())) add(o, x);
    add(o, s.numSegments());
    add(o, s.size());
}
void scaling(Ctx& c, Out& o)
{
    Field<scalar> t(c.exec, c.d.nCells());
    dsl::detail::toField(*std::make_unique<dsl::Coeff>(c.co.get()), t);
    add(o, t);
}
template<int How>
void solve(Ctx& c, Out& o)
{
    dsl::Expression<scalar> e(c.exec);
    singularAllowed = true;
    for (auto u : {Use {ExpDiv, 1}, Use {ExpSource, -0.5}}) e.addOperator(c.ws.make(u, c.phi));
    if (How != 1)
        for (auto u : {Use {ImpLap, -1}, Use {ImpSource, 0.5}}) e.addOperator(c.ws.make(u, c.phi));
    if (How == 1) e.addOperator(dsl::imp::ddt(c.phi));
    if (How == 2) e.addOperator(dsl::imp::ddt(c.phi));
    Dictionary sol;
    sol.insert("solver", std::string("exact"));
    dsl::solve(e, c.phi, 2.0, 0.5, schemes(How == 0 ? "" : How == 1 ? "forwardEuler" : "backwardEuler"), sol);
    add(o, c.phi.internalField());
    add(o, c.phi.boundaryField().value());
}
const Subject S[] = {
    {"divergence, explicit, scalar, linear", true, divExplicit<scalar, 0>},
    {"divergence, explicit, vector, upwind", true, divExplicit<Vector, 1>},
    {"divergence, implicit, scalar, upwind", true, divImplicit<scalar, 1>},
    {"divergence, implicit, vector, linear", true, divImplicit<Vector, 0>},
    {"Laplacian, explicit, scalar", true, lapExplicit<scalar>},
    {"Laplacian, explicit, vector", true, lapExplicit<Vector>},
    {"Laplacian, implicit, scalar", true, lapImplicit<scalar>},
    {"Laplacian, implicit, vector", true, lapImplicit<Vector>},
    {"gradient", true, grad},
    {"sum over faces, scalar", true, surfaceSum<scalar>},
    {"sum over faces, vector", true, surfaceSum<Vector>},
    {"source, scalar", true, source<scalar>},
    {"source, vector", true, source<Vector>},
    {"time derivative, scalar", true, ddt<scalar>, ddtPrepare<scalar>},
    {"time derivative, vector", true, ddt<Vector>, ddtPrepare<Vector>},
    {"linear interpolation, scalar", true, interpolate<scalar, 0>},
    {"upwind interpolation, vector", true, interpolate<Vector, 1>},
    {"face normal gradient, scalar", true, normalGrad<scalar>},
    {"face normal gradient, vector", true, normalGrad<Vector>},
    {"boundary conditions, scalar", true, boundaries<scalar>},
    {"boundary conditions, vector", true, boundaries<Vector>},
    {"fixed gradient, vector", true, oneBoundary<Vector, FixedGradientBc>},
    {"extrapolated, scalar", true, oneBoundary<scalar, ExtrapolatedBc>},
    {"surface conditions", true, surfaceBoundary<scalar>},
    {"geometry", true, geometry},
    {"Courant number", true, coNum},
    {"sparsity pattern", true, pattern},
    {"stencil", true, stencil},
    {"matrix times vector", true, multiply},
    {"system conversion", true, convert},
    {"system reset", true, reset},
    {"coefficient", true, scaling},
    {"steady solve", true, solve<0>},
    {"explicit step", true, solve<1>, ddtPrepare<scalar>},
    {"implicit step", true, solve<2>, ddtPrepare<scalar>},
    {"uniform mesh", false, mesh1D},
    {"field arithmetic, scalar", false, [](Ctx& c, Out& o) { fieldArithmetic(c.fa, c.fb, c.fb, o); }},
    {"field arithmetic, vector", false, [](Ctx& c, Out& o) { fieldArithmetic(c.va, c.vb, c.fb, o); }},
    {"field maps", false, [](Ctx& c, Out& o) { fieldMaps(c.fa, o); }},
    {"segments", false, segmented},
};
constexpr int NS = int(sizeof(S) / sizeof(S[0]));

void run(int from, int to, int bound)
{
    const Subject& s = S[from + choose(to - from, "subject")];
    const MeshData& d = meshes()[s.meshes ? size_t(choose(int(meshes().size()), "mesh")) : 0];
    auto ex = execOf(1 + choose(2, "executor"));
    kk::begin(kk::Forward);
    Out want, got;
    size_t n;
    {
        Ctx c(d, ex);
        if (s.prepare) s.prepare(c);
        kk::resetLaunches();
        s.run(c, want);
        n = kk::launches();
    }
    MC_CHECK(n > 0, "no-kernel", s.name, " ran no kernel");
    size_t k = size_t(choose(int(n), "concurrent kernel"));
    Ctx c(d, ex);
    if (s.prepare) s.prepare(c);
    mcs::delayBounded(true);
    mc::setDeviationBound(bound);
    MC_STEP(s.name, " on ", d.name, ", kernel ", k, " concurrent");
    kk::begin(kk::Forward);
    kk::concurrentLaunch(k);
    s.run(c, got);
    checkNear(got, want, "outcome", mc::cat(s.name, " on ", d.name, " with the iterations of kernel ", k, " running concurrently"));
}
}
MC_SCENARIO_ISOLATED(assembly, "divergence, Laplacian, gradient and face sums, explicit and implicit, scalar and vector, on 5 meshes where faces meet in the same cells: each kernel in turn with one task per iteration (up to 8), all schedules with 1 deviation (2 thorough) from running the tasks one after the other, happens-before race detection") { run(0, 11, mc::thorough() ? 2 : 1); }
MC_SCENARIO_ISOLATED(cellwise, "sources, time derivatives, interpolation, normal gradients, boundary conditions, geometry, Courant number, pattern, stencil, linear systems, steady solves, explicit and implicit steps, likewise") { run(11, 35, mc::thorough() ? 2 : 1); }
MC_SCENARIO_ISOLATED(fields, "mesh generation and field functions, likewise with 2 deviations (3 thorough)") { run(35, NS, mc::thorough() ? 3 : 2); }
