// Implicit and explicit forms agree; assembling adds to a system.
#include "opref.hpp"
#include "bcs.hpp"
#include "systems.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/ddtOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary.hpp"
#include "NeoFOAM/dsl/explicit.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
#include "NeoFOAM/dsl/expression.hpp"
using namespace fv;
namespace dsl = NeoFOAM::dsl;

namespace
{
constexpr auto IMP = dsl::Operator::Type::Implicit;
constexpr auto EXP = dsl::Operator::Type::Explicit;
std::vector<MeshData>& meshes()
{
    static std::vector<MeshData> L = []
    {
        auto l = meshList();
        l.push_back(skewed());
        return l;
    }();
    return L;
}
const MeshData& pickMesh() { return meshes()[size_t(choose(int(meshes().size()), "mesh"))]; }
TokenList tokens(std::initializer_list<const char*> l)
{
    std::vector<std::any> v;
    for (auto s : l) v.push_back(std::string(s));
    return TokenList(v);
}
std::vector<scalar> pickFlux(const MeshData& d, bool enumerate)
{
    static const double F[] = {1.5, -2.5, 0};
    int p = enumerate ? 0 : choose(3, "flux pattern");
    std::vector<scalar> r;
    for (size_t f = 0; f < d.nFaces(); ++f)
    {
        double k = f % 3 == 0 ? -1.0 : f % 3 == 1 ? 2.0 : 0.5;
        if (enumerate && (f < std::min<size_t>(d.nInt, 3) || f == d.nInt)) k = F[choose(3, "flux")];
        r.push_back(p == 0 ? k : p == 1 ? 1 + 0.5 * double(f) : -2 - 0.25 * double(f));
    }
    return r;
}
// the system's residual equals V times the explicit form, for the current field and, where the
// conditions are linear in the cell values, for other vectors too
template<typename T, typename Ref>
void compare(const MeshData& d, const System<T>& s, const Dense<T>* before, const Conditions<T>& c, const std::vector<T>& v, Ref explicitOf, const std::string& what)
{
    Dense<T> D(s);
    bool lagged = false;
    for (auto t : c.type) lagged |= t == ExtrapolatedBc;
    for (int other = 0; other < (lagged ? 1 : 3); ++other)
    {
        std::vector<T> x = v;
        if (other)
            for (size_t i = 0; i < x.size(); ++i) x[i] = of<T>(other == 1 ? 0.5 + double((i * 7) % 5) : i == 0 ? 1.0 : 0.0);
        auto want = timesEach(d.V, explicitOf(x));
        if (before) want = sum(want, before->residual(x));
        checkNear(D.residual(x), want, "residual", mc::cat(what, " for x = ", show(x)));
    }
}
template<typename T>
struct Case
{
    const MeshData& d;
    UnstructuredMesh m;
    Conditions<T> c;
    std::vector<T> v, b;
    std::unique_ptr<Vol<T>> phi;
    Case(int nCond) : d(pickMesh()), m(d.make(pick2().exec)), c(pickConditions<T>(d, nCond))
    {
        v = distinct<T>(d.nCells(), 1);
        b = c.values(d, v, distinct<T>(d.nB(), 40));
        phi = std::make_unique<Vol<T>>(conditioned<T>(m, c, v, distinct<T>(d.nB(), 40)));
        phi->correctBoundaryConditions();
    }
    void untouched(const std::string& what)
    {
        MC_CHECK(same(val(phi->internalField()), v), "source-changed", what, " changed the field");
        checkNear(val(phi->boundaryField().value()), b, "boundary", what + ": the boundary of the field");
    }
};
template<typename T>
void divAll()
{
    Case<T> k(3);
    const MeshData& d = k.d;
    Scheme sch = Scheme(choose(2, "scheme"));
    bool en = choose(2, "enumerate the flux");
    if (en && d.nPatches() > 0 && k.c.type[0] == ExtrapolatedBc) mc::prune();
    auto flux = pickFlux(d, en);
    int kind = en ? 0 : choose(4, "coefficient"), form = en ? 0 : choose(4, "form"), pre = en ? 1 : choose(2, "prefilled");
    Coefficient co(kind, k.m.exec(), d.nCells());
    auto fl = surfField(k.m, flux);
    std::string what = mc::cat("implicit divergence (", SCHEME[sch], ") on ", d.name, " with flux ", show(flux), ", conditions ", k.c.text(), ", coefficient ", co.text(), ", form ", form);
    MC_STEP(what);
    auto s = emptySystem<T>(k.m);
    if (pre) prefill(s);
    Dense<T> before(s);
    Input in(tokens({"Gauss", SCHEME[sch]}));
    auto op = [&](dsl::Operator::Type t)
    {
        fvcc::DivOperator<T> o(t, fl, *k.phi, Input(tokens({"Gauss", SCHEME[sch]})));
        o.getCoefficient() *= co.get();
        return o;
    };
    if (form == 0) fvcc::DivOperatorFactory<T>::create(k.m.exec(), k.m, in)->div(s, fl, *k.phi, co.get());
    else if (form == 1) op(IMP).implicitOperation(s);
    else if (form == 2) op(IMP).div(s);
    else
    {
        auto o = dsl::imp::div(fl, *k.phi);
        MC_CHECK(o.getType() == IMP, "type", "an implicit divergence is not implicit");
        Dictionary schemes;
        schemes.insert("divSchemes", Dictionary({{"div(flux,phi)", tokens({"Gauss", SCHEME[sch]})}}));
        o.build(Input(schemes));
        (co.get() * o).implicitOperation(s);
    }
    compare<T>(d, s, &before, k.c, k.v, [&](const std::vector<T>& x) { return divRef(d, sch, flux, x, k.c.values(d, x, k.b), co.values); }, what);
    auto t = kh::make(k.m.exec(), std::vector<T>(d.nCells(), zeroOf<T>()));
    op(EXP).explicitOperation(t);
    checkNear(timesEach(d.V, val(t)), minus<T>(Dense<T>(s).residual(k.v), before.residual(k.v)), "forms", what + " against the explicit form");
    k.untouched(what);
}
template<typename T>
void lapAll()
{
    Case<T> k(3);
    const MeshData& d = k.d;
    int kind = choose(4, "coefficient"), form = choose(3, "form"), pre = choose(2, "prefilled"), gk = choose(3, "diffusivity");
    std::vector<scalar> gamma;
    for (size_t f = 0; f < d.nFaces(); ++f) gamma.push_back(gk == 0 ? 1 : gk == 1 ? 0.5 + 0.75 * double(f) : f % 2 ? 0 : 3);
    Coefficient co(kind, k.m.exec(), d.nCells());
    auto ga = surfField(k.m, gamma, "gamma");
    std::string what = mc::cat("implicit Laplacian on ", d.name, " with diffusivity ", show(gamma), ", conditions ", k.c.text(), ", coefficient ", co.text(), ", form ", form);
    MC_STEP(what);
    auto s = emptySystem<T>(k.m);
    if (pre) prefill(s);
    Dense<T> before(s);
    auto op = [&](dsl::Operator::Type t)
    {
        fvcc::LaplacianOperator<T> o(t, ga, *k.phi, Input(tokens({"Gauss", "linear", "uncorrected"})));
        o.getCoefficient() *= co.get();
        return o;
    };
    if (form == 0) fvcc::LaplacianOperatorFactory<T>::create(k.m.exec(), k.m, Input(tokens({"Gauss", "linear", "uncorrected"})))->laplacian(s, ga, *k.phi, co.get());
    else if (form == 1) op(IMP).implicitOperation(s);
    else
    {
        auto o = dsl::imp::laplacian(ga, *k.phi);
        MC_CHECK(o.getType() == IMP, "type", "an implicit Laplacian is not implicit");
        Dictionary schemes;
        schemes.insert("laplacianSchemes", Dictionary({{"laplacian(gamma,phi)", tokens({"Gauss", "linear", "uncorrected"})}}));
        o.build(Input(schemes));
        (co.get() * o).implicitOperation(s);
    }
    compare<T>(d, s, &before, k.c, k.v, [&](const std::vector<T>& x) { return lapRef(d, gamma, x, k.c.values(d, x, k.b), co.values); }, what);
    auto t = kh::make(k.m.exec(), std::vector<T>(d.nCells(), zeroOf<T>()));
    op(EXP).explicitOperation(t);
    checkNear(timesEach(d.V, val(t)), minus<T>(Dense<T>(s).residual(k.v), before.residual(k.v)), "forms", what + " against the explicit form");
    k.untouched(what);
}
template<typename T>
void sourceAll()
{
    Case<T> k(2);
    const MeshData& d = k.d;
    int kind = choose(4, "coefficient"), form = choose(2, "form"), pre = choose(2, "prefilled");
    Coefficient co(kind, k.m.exec(), d.nCells());
    auto cf = distinct<scalar>(d.nCells(), 0.5);
    auto cof = volField<scalar>(k.m, cf, distinct<scalar>(d.nB(), 60), "coeff");
    std::string what = mc::cat("implicit source on ", d.name, ", coefficient ", co.text(), ", form ", form);
    MC_STEP(what);
    auto s = emptySystem<T>(k.m);
    if (pre) prefill(s);
    Dense<T> before(s);
    if (form == 0)
    {
        fvcc::SourceTerm<T> o(IMP, cof, *k.phi);
        o.getCoefficient() *= co.get();
        o.implicitOperation(s);
    }
    else
    {
        auto o = co.get() * dsl::imp::source(cof, *k.phi);
        MC_CHECK(o.getType() == IMP, "type", "an implicit source is not implicit");
        o.implicitOperation(s);
    }
    compare<T>(d, s, &before, k.c, k.v, [&](const std::vector<T>& x) { return timesEach(co.values, timesEach(cf, x)); }, what);
    fvcc::SourceTerm<T> e(EXP, cof, *k.phi);
    e.getCoefficient() *= co.get();
    auto t = kh::make(k.m.exec(), std::vector<T>(d.nCells(), zeroOf<T>()));
    e.explicitOperation(t);
    checkNear(timesEach(d.V, val(t)), minus<T>(Dense<T>(s).residual(k.v), before.residual(k.v)), "forms", what + " against the explicit form");
    k.untouched(what);
}
// both forms of the time derivative carry the cell volume
template<typename T>
void ddtAll()
{
    const MeshData& d = pickMesh();
    auto m = d.make(pick2().exec);
    int kind = choose(4, "coefficient"), form = choose(2, "form"), pre = choose(2, "prefilled");
    double dt = choose(2, "step") ? 0.5 : 1e-3;
    Coefficient co(kind, m.exec(), d.nCells());
    auto v = distinct<T>(d.nCells(), 1), old = distinct<T>(d.nCells(), 20);
    NeoFOAM::Database db;
    Conditions<T> c(d);
    Vol<T>& phi = registered(db, conditioned<T>(m, c, v, distinct<T>(d.nB(), 40)));
    put(fvcc::oldTime(phi).internalField(), old);
    std::string what = mc::cat("time derivative on ", d.name, ", coefficient ", co.text(), ", step ", dt, ", form ", form);
    MC_STEP(what);
    auto want = [&](const std::vector<T>& x)
    {
        std::vector<T> r;
        for (size_t i = 0; i < x.size(); ++i) r.push_back(scale(co.values[i] / dt, minus(x[i], old[i])));
        return r;
    };
    auto s = emptySystem<T>(m);
    if (pre) prefill(s);
    Dense<T> before(s);
    auto content = distinct<T>(d.nCells(), -300);
    auto t = kh::make(m.exec(), content);
    if (form == 0)
    {
        fvcc::DdtOperator<T> o(IMP, phi), e(EXP, phi);
        o.getCoefficient() *= co.get(), e.getCoefficient() *= co.get();
        o.implicitOperation(s, 2.0, dt);
        e.explicitOperation(t, 2.0, dt);
    }
    else
    {
        auto o = co.get() * dsl::imp::ddt(phi);
        MC_CHECK(o.getType() == IMP, "type", "the implicit time derivative is not implicit");
        o.implicitOperation(s, 2.0, dt);
        dsl::TemporalOperator<T> e(fvcc::DdtOperator<T>(EXP, phi));
        (co.get() * e).explicitOperation(t, 2.0, dt);
    }
    compare<T>(d, s, &before, c, v, want, what);
    checkNear(val(t), sum(content, timesEach(d.V, want(v))), "ddt-explicit", what + ", explicit form");
    MC_CHECK(same(val(phi.internalField()), v) && same(val(fvcc::oldTime(phi).internalField()), old), "source-changed", what, " changed the field");
}
// several operators into one system
template<typename T>
void sumAll()
{
    Case<T> k(2);
    const MeshData& d = k.d;
    NeoFOAM::Database db;
    Vol<T>& phi = registered(db, *k.phi);
    auto old = distinct<T>(d.nCells(), 20);
    put(fvcc::oldTime(phi).internalField(), old);
    auto flux = distinct<scalar>(d.nFaces(), -2), gamma = distinct<scalar>(d.nFaces(), 0.5), cf = distinct<scalar>(d.nCells(), 0.25);
    auto fl = surfField(k.m, flux);
    auto ga = surfField(k.m, gamma, "gamma");
    auto cof = volField<scalar>(k.m, cf, distinct<scalar>(d.nB(), 60), "coeff");
    int len = 1 + choose(mc::thorough() ? 4 : 3, "operators");
    auto s = emptySystem<T>(k.m);
    prefill(s);
    Dense<T> before(s);
    std::string what = mc::cat("on ", d.name, " with ", k.c.text(), ":");
    std::vector<int> ops;
    auto kOf = [&](size_t i) { return std::vector<scalar>(d.nCells(), i == 1 ? -2.0 : 1.0); };
    auto one = [&](int o, size_t i, const std::vector<T>& x)
    {
        auto b = k.c.values(d, x, k.b);
        if (o == 0) return divRef(d, UpwindScheme, flux, x, b, kOf(i));
        if (o == 1) return lapRef(d, gamma, x, b, kOf(i));
        if (o == 2) return timesEach(kOf(i), timesEach(cf, x));
        return timesEach(kOf(i), timesEach(std::vector<scalar>(d.nCells(), 1 / 0.25), minus<T>(x, old)));
    };
    for (int n = 0; n < len; ++n)
    {
        int o = choose(4, "operator");
        size_t i = ops.size();
        ops.push_back(o);
        static const char* N[] = {" div", " laplacian", " source", " ddt"};
        what += N[o];
        MC_STEP("assemble", N[o]);
        dsl::Coeff co(i == 1 ? -2.0 : 1.0);
        if (o == 0)
        {
            fvcc::DivOperator<T> op(IMP, fl, phi, Input(tokens({"Gauss", "upwind"})));
            op.getCoefficient() *= co;
            op.implicitOperation(s);
        }
        if (o == 1)
        {
            fvcc::LaplacianOperator<T> op(IMP, ga, phi, Input(tokens({"Gauss", "linear", "uncorrected"})));
            op.getCoefficient() *= co;
            op.implicitOperation(s);
        }
        if (o == 2)
        {
            fvcc::SourceTerm<T> op(IMP, cof, phi);
            op.getCoefficient() *= co;
            op.implicitOperation(s);
        }
        if (o == 3)
        {
            fvcc::DdtOperator<T> op(IMP, phi);
            op.getCoefficient() *= co;
            op.implicitOperation(s, 1.0, 0.25);
        }
        compare<T>(d, s, &before, k.c, k.v, [&](const std::vector<T>& x)
        {
            std::vector<T> r(d.nCells(), zeroOf<T>());
            for (size_t j = 0; j < ops.size(); ++j) r = sum(r, one(ops[j], j, x));
            return r;
        }, what);
    }
}
}
MC_SCENARIO(div_scalar, "implicit divergence: 14 meshes x executors x orders x conditions (fixed value, fixed gradient, extrapolated per patch) x schemes x (flux signs on three internal and one boundary face, or 3 fluxes x coefficients x forms) x empty or filled system") { divAll<scalar>(); }
MC_SCENARIO(div_vector, "the same for vectors") { divAll<Vector>(); }
MC_SCENARIO(laplacian_scalar, "implicit Laplacian: 14 meshes x executors x orders x conditions x coefficients x diffusivities x forms x empty or filled system") { lapAll<scalar>(); }
MC_SCENARIO(laplacian_vector, "the same for vectors") { lapAll<Vector>(); }
MC_SCENARIO(source_scalar, "implicit source: 14 meshes x executors x orders x coefficients x forms") { sourceAll<scalar>(); }
MC_SCENARIO(source_vector, "the same for vectors") { sourceAll<Vector>(); }
MC_SCENARIO(ddt_scalar, "time derivative: 14 meshes x executors x orders x coefficients x steps x forms") { ddtAll<scalar>(); }
MC_SCENARIO(ddt_vector, "the same for vectors") { ddtAll<Vector>(); }
MC_SCENARIO(sums_scalar, "all sequences of up to 3 operators (4 thorough) out of divergence, Laplacian, source and time derivative into one filled system, 14 meshes x executors x orders x conditions") { sumAll<scalar>(); }
MC_SCENARIO(sums_vector, "the same for vectors") { sumAll<Vector>(); }
