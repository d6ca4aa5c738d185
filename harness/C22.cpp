// Explicit finite volume operators: exact contributions, conservation, fresh results, all executors.
#include "opref.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenGrad.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/geometryScheme.hpp"
#include "NeoFOAM/dsl/explicit.hpp"
using namespace fv;
namespace dsl = NeoFOAM::dsl;

namespace
{
std::vector<MeshData>& meshes()
{
    static std::vector<MeshData> L = []
    {
        auto l = meshList();
        l.push_back(skewed());
        return l;
    }();
    return L;
}
const MeshData& pickMesh() { return meshes()[size_t(choose(int(meshes().size()), "mesh"))]; }
std::vector<scalar> ones(size_t n) { return std::vector<scalar>(n, 1.0); }
// flux over the faces: the first three internal faces and the first boundary face enumerated
std::vector<scalar> pickFlux(const MeshData& d, bool enumerate)
{
    static const double F[] = {1.5, -2.5, 0};
    int p = enumerate ? 0 : choose(3, "flux pattern");
    std::vector<scalar> r;
    for (size_t f = 0; f < d.nFaces(); ++f)
    {
        double k = f % 3 == 0 ? -1.0 : f % 3 == 1 ? 2.0 : 0.5;
        if (enumerate && (f < std::min<size_t>(d.nInt, 3) || f == d.nInt)) k = F[choose(3, "flux")];
        r.push_back(p == 0 ? k : p == 1 ? 1 + 0.5 * double(f) : -2 - 0.25 * double(f));
    }
    return r;
}
TokenList tokens(std::initializer_list<const char*> l)
{
    std::vector<std::any> v;
    for (auto s : l) v.push_back(std::string(s));
    return TokenList(v);
}
template<typename T>
void conserved(const MeshData& d, const std::vector<T>& res, const std::vector<T>& faces, const std::string& what)
{
    T in = zeroOf<T>(), out = zeroOf<T>();
    for (size_t i = 0; i < d.nCells(); ++i) in = plus(in, scale(d.V[i], res[i]));
    for (size_t f = d.nInt; f < d.nFaces(); ++f) out = plus(out, faces[f]);
    MC_CHECK(near(in, out), "conservation", what, ": the cells gain ", show(in), " in total, through the boundary come ", show(out));
}
template<typename T>
Vol<T> target(const UnstructuredMesh& m, const std::vector<T>& v)
{
    return volField<T>(m, v, distinct<T>(m.nBoundaryFaces(), 900), "target");
}
// ---- divergence -----------------------------------------------------------------------------
enum DivForm
{
    DivReturned,
    DivFresh,       // into a zeroed Field
    DivStaleVolume, // into a VolumeField with old content
    DivStaleField,
    DivOpExplicit, // onto a target with content
    DivOpField,
    DivOpVolume,
    DivBuiltDict,
    DivBuiltTokens,
    DivCopy,
    DivDsl,
    DivForms
};
template<typename T>
void runDiv(const MeshData& d, const UnstructuredMesh& m, Scheme sch, const std::vector<scalar>& flux, int kind, int form)
{
    auto v = distinct<T>(d.nCells(), 1), b = distinct<T>(d.nB(), 40);
    Coefficient k(kind, m.exec(), d.nCells());
    auto phi = volField(m, v, b);
    auto fl = surfField(m, flux);
    auto want = divRef(d, sch, flux, v, b, k.values);
    auto old = distinct<T>(d.nCells(), -300);
    std::string what = mc::cat("divergence (", SCHEME[sch], ") on ", d.name, " with flux ", show(flux), ", coefficient ", k.text(), ", form ", form);
    MC_STEP(what);
    auto strategy = [&] { return fvcc::DivOperatorFactory<T>::create(m.exec(), m, Input(tokens({"Gauss", SCHEME[sch]}))); };
    auto oper = [&]
    {
        fvcc::DivOperator<T> op(dsl::Operator::Type::Explicit, fl, phi, Input(tokens({"Gauss", SCHEME[sch]})));
        op.getCoefficient() *= k.get();
        return op;
    };
    std::vector<T> got;
    switch (form)
    {
    case DivReturned: got = val(strategy()->div(fl, phi, k.get()).internalField()); break;
    case DivFresh:
    case DivStaleField:
    {
        auto t = kh::make(m.exec(), form == DivFresh ? std::vector<T>(d.nCells(), zeroOf<T>()) : old);
        strategy()->div(t, fl, phi, k.get());
        got = val(t);
        break;
    }
    case DivStaleVolume:
    {
        auto t = target<T>(m, old);
        strategy()->div(t, fl, phi, k.get());
        got = val(t.internalField());
        MC_CHECK(same(val(t.boundaryField().value()), distinct<T>(d.nB(), 900)), "boundary-changed", what, " changed the boundary of its result");
        break;
    }
    case DivOpField:
    {
        auto t = kh::make(m.exec(), old);
        oper().div(t);
        got = val(t);
        break;
    }
    case DivOpVolume:
    {
        auto t = target<T>(m, old);
        oper().div(t);
        got = val(t.internalField());
        break;
    }
    default:
    {
        auto t = kh::make(m.exec(), old);
        if (form == DivOpExplicit) oper().explicitOperation(t);
        else if (form == DivCopy)
        {
            auto o = oper();
            fvcc::DivOperator<T> c(o);
            c.explicitOperation(t);
        }
        else if (form == DivDsl)
        {
            if constexpr (std::is_same_v<T, scalar>)
            {
                auto o = dsl::exp::div(fl, phi);
                o.build(Input(tokens({"Gauss", SCHEME[sch]})));
                auto c = k.get() * o;
                c.explicitOperation(t);
            }
            else
            {
                dsl::SpatialOperator<T> o(oper());
                o.explicitOperation(t);
            }
        }
        else
        {
            fvcc::DivOperator<T> o(dsl::Operator::Type::Explicit, fl, phi);
            o.getCoefficient() *= k.get();
            mc::expectAnyError("unbuilt", [&] { o.explicitOperation(t); }, "using an operator before its scheme is set");
            Dictionary schemes;
            if (form == DivBuiltDict)
                schemes.insert("divSchemes", Dictionary({{"div(flux,phi)", tokens({"Gauss", SCHEME[sch]})}, {"div(phi,flux)", tokens({"Gauss", SCHEME[1 - sch]})}, {"div(flux,psi)", tokens({"Gauss", SCHEME[1 - sch]})}}));
            o.build(form == DivBuiltDict ? Input(schemes) : Input(tokens({"Gauss", SCHEME[sch]})));
            o.explicitOperation(t);
        }
        got = val(t);
        want = sum(old, want);
        checkNear(got, want, "div", what);
        return;
    }
    }
    checkNear(got, want, "div", what);
    if (kind == 0) conserved(d, got, timesEach(flux, faceValues(d, sch, flux, v, b)), what);
    MC_CHECK(same(val(phi.internalField()), v) && same(val(phi.boundaryField().value()), b) && same(val(fl.internalField()), flux), "source-changed", what, " changed its arguments");
}
template<typename T>
void divAll()
{
    const MeshData& d = pickMesh();
    auto p = pick2();
    auto m = d.make(p.exec);
    Scheme s = Scheme(choose(2, "scheme"));
    if (choose(2, "enumerate the flux")) runDiv<T>(d, m, s, pickFlux(d, true), 0, DivReturned);
    else
    {
        int kind = choose(4, "coefficient"), form = choose(DivForms, "form");
        runDiv<T>(d, m, s, pickFlux(d, false), kind, form);
    }
}
// ---- gradient -------------------------------------------------------------------------------
void gradAll()
{
    const MeshData& d = pickMesh();
    auto p = pick2();
    auto m = d.make(p.exec);
    int content = choose(4, "content"), form = choose(4, "form");
    std::vector<scalar> v = distinct<scalar>(d.nCells(), 1), b = distinct<scalar>(d.nB(), 40);
    if (content == 1) v.assign(v.size(), 3.25), b.assign(b.size(), 3.25);
    Affine f {2, Vector(3, -1, 0.5)};
    if (content == 2)
    {
        for (size_t i = 0; i < v.size(); ++i) v[i] = f(d.C[i]);
        for (size_t i = 0; i < b.size(); ++i) b[i] = f(d.Cf[d.nInt + i]);
    }
    if (content == 3)
    {
        v.assign(v.size(), 0), b.assign(b.size(), 0);
        int k = choose(int(d.nCells() + d.nB()), "unit");
        (k < int(d.nCells()) ? v[size_t(k)] : b[size_t(k) - d.nCells()]) = 1;
    }
    auto phi = volField(m, v, b);
    auto want = gradRef(d, v, b);
    std::string what = mc::cat("gradient on ", d.name, " of ", show(v), " / ", show(b), ", form ", form);
    MC_STEP(what);
    fvcc::GaussGreenGrad g(m.exec(), m);
    std::vector<Vector> got;
    if (form == 0) got = val(g.grad(phi).internalField());
    else if (form == 1)
    {
        auto t = target<Vector>(m, std::vector<Vector>(d.nCells(), Vector(0, 0, 0)));
        g.grad(phi, t);
        got = val(t.internalField());
    }
    else
    {
        auto t = target<Vector>(m, distinct<Vector>(d.nCells(), -300));
        g.grad(phi, t);
        if (form == 3) g.grad(phi, t); // every step into the same field
        got = val(t.internalField());
    }
    checkNear(got, want, "grad", what);
    if (content == 1 && d.closed)
        for (auto& x : got) MC_CHECK(norm(x) < 1e-10, "grad-constant", what, ": a constant has gradient ", show(x));
    MC_CHECK(same(val(phi.internalField()), v) && same(val(phi.boundaryField().value()), b), "source-changed", what, " changed its argument");
}
// ---- Laplacian ------------------------------------------------------------------------------
enum LapForm
{
    LapFresh,
    LapStaleField,
    LapStaleVolume,
    LapOpVolume,
    LapOpExplicit,
    LapCopy,
    LapBuiltDict,
    LapBuiltTokens,
    LapDsl,
    LapForms
};
template<typename T>
void lapAll()
{
    const MeshData& d = pickMesh();
    auto p = pick2();
    auto m = d.make(p.exec);
    int kind = choose(4, "coefficient"), form = choose(LapForms, "form"), content = kind == 0 ? choose(3, "content") : 0, gk = choose(3, "diffusivity");
    std::vector<T> v = distinct<T>(d.nCells(), 1), b = distinct<T>(d.nB(), 40);
    if (content == 1) v.assign(v.size(), of<T>(3.25)), b.assign(b.size(), of<T>(3.25));
    if (content == 2)
    {
        v.assign(v.size(), zeroOf<T>()), b.assign(b.size(), zeroOf<T>());
        int k = choose(int(d.nCells() + d.nB()), "unit");
        (k < int(d.nCells()) ? v[size_t(k)] : b[size_t(k) - d.nCells()]) = of<T>(1);
    }
    std::vector<scalar> gamma;
    for (size_t f = 0; f < d.nFaces(); ++f) gamma.push_back(gk == 0 ? 1 : gk == 1 ? 0.5 + 0.75 * double(f) : f % 2 ? 0 : 3);
    Coefficient k(kind, m.exec(), d.nCells());
    auto phi = volField(m, v, b);
    auto ga = surfField(m, gamma, "gamma");
    auto want = lapRef(d, gamma, v, b, k.values);
    auto old = distinct<T>(d.nCells(), -300);
    std::string what = mc::cat("Laplacian on ", d.name, " of ", show(v), " / ", show(b), " with diffusivity ", show(gamma), ", coefficient ", k.text(), ", form ", form);
    MC_STEP(what);
    auto spec = [&] { return Input(tokens({"Gauss", "linear", "uncorrected"})); };
    auto strategy = [&] { return fvcc::LaplacianOperatorFactory<T>::create(m.exec(), m, spec()); };
    auto oper = [&]
    {
        fvcc::LaplacianOperator<T> op(dsl::Operator::Type::Explicit, ga, phi, spec());
        op.getCoefficient() *= k.get();
        return op;
    };
    std::vector<T> got;
    if (form == LapFresh || form == LapStaleField)
    {
        auto t = kh::make(m.exec(), form == LapFresh ? std::vector<T>(d.nCells(), zeroOf<T>()) : old);
        strategy()->laplacian(t, ga, phi, k.get());
        got = val(t);
    }
    else if (form == LapStaleVolume || form == LapOpVolume)
    {
        auto t = target<T>(m, old);
        if (form == LapStaleVolume) strategy()->laplacian(t, ga, phi, k.get());
        else oper().laplacian(t);
        got = val(t.internalField());
    }
    else
    {
        auto t = kh::make(m.exec(), old);
        if (form == LapOpExplicit) oper().explicitOperation(t);
        else if (form == LapCopy)
        {
            auto o = oper();
            fvcc::LaplacianOperator<T> c(o);
            c.explicitOperation(t);
        }
        else if (form == LapDsl)
        {
            dsl::SpatialOperator<T> o(oper());
            o.explicitOperation(t);
        }
        else
        {
            fvcc::LaplacianOperator<T> o(dsl::Operator::Type::Explicit, ga, phi);
            o.getCoefficient() *= k.get();
            mc::expectAnyError("unbuilt", [&] { o.explicitOperation(t); }, "using an operator before its scheme is set");
            Dictionary schemes;
            if (form == LapBuiltDict) schemes.insert("laplacianSchemes", Dictionary({{"laplacian(gamma,phi)", tokens({"Gauss", "linear", "uncorrected"})}}));
            o.build(form == LapBuiltDict ? Input(schemes) : spec());
            o.explicitOperation(t);
        }
        got = val(t);
        want = sum(old, want);
    }
    checkNear(got, want, "laplacian", what);
    if (form < LapOpExplicit)
    {
        if (kind == 0) conserved(d, got, timesEach(gamma, timesEach(d.magSf, normalGradRef(d, v, b))), what);
        if (content == 1)
            for (auto& x : got) MC_CHECK(near(x, zeroOf<T>()), "laplacian-constant", what, ": a constant has Laplacian ", show(x));
    }
    MC_CHECK(same(val(phi.internalField()), v) && same(val(phi.boundaryField().value()), b) && same(val(ga.internalField()), gamma), "source-changed", what, " changed its arguments");
}
// ---- face normal gradient -------------------------------------------------------------------
template<typename T>
void normalGradAll()
{
    const MeshData& d = pickMesh();
    auto p = pick();
    auto m = d.make(p.exec);
    int form = choose(4, "form"), spec = choose(2, "input form");
    auto v = distinct<T>(d.nCells(), 1), b = distinct<T>(d.nB(), 40);
    auto phi = volField(m, v, b);
    std::string what = mc::cat("face normal gradient on ", d.name, ", form ", form);
    MC_STEP(what);
    fvcc::FaceNormalGradient<T> g(m.exec(), m, spec ? Input(Dictionary({{"faceNormalGradient", std::string("uncorrected")}})) : Input(tokens({"uncorrected"})));
    std::vector<T> got;
    auto use = [&](const fvcc::FaceNormalGradient<T>& x)
    {
        if (form == 0) got = val(x.faceNormalGrad(phi).internalField());
        else
        {
            auto t = surfField<T>(m, distinct<T>(d.nFaces(), 700));
            x.faceNormalGrad(phi, t);
            got = val(t.internalField());
        }
        std::vector<scalar> want;
        for (size_t f = 0; f < d.nFaces(); ++f) want.push_back(faceCoeff(d, f));
        checkNear(val(x.deltaCoeffs().internalField()), want, "delta-coeffs", what + " coefficients");
    };
    if (form < 2) use(g);
    else if (form == 2)
    {
        fvcc::FaceNormalGradient<T> c(g);
        use(c);
    }
    else
    {
        fvcc::FaceNormalGradient<T> c(std::move(g));
        use(c);
    }
    checkNear(got, normalGradRef(d, v, b), "normal-gradient", what);
    std::vector<scalar> plain;
    for (size_t f = 0; f < d.nFaces(); ++f) plain.push_back(1 / norm(sub(f < d.nInt ? d.C[size_t(d.nei[f])] : d.Cf[f], d.C[size_t(d.own[f])])));
    checkNear(val(fvcc::GeometryScheme::readOrCreate(m)->deltaCoeffs().internalField()), plain, "delta-coeffs", "centre distances on " + d.name);
}
// ---- surface integral and source ------------------------------------------------------------
template<typename T>
void integrateAll()
{
    const MeshData& d = pickMesh();
    auto p = pick2();
    auto m = d.make(p.exec);
    int kind = choose(4, "coefficient"), form = choose(3, "form");
    Coefficient k(kind, m.exec(), d.nCells());
    auto flux = distinct<T>(d.nFaces(), 3), old = distinct<T>(d.nCells(), -300);
    if (choose(2, "unit flux"))
    {
        flux.assign(flux.size(), zeroOf<T>());
        flux[size_t(choose(int(d.nFaces()), "face"))] = of<T>(2);
    }
    auto fl = surfField<T>(m, flux);
    std::string what = mc::cat("surface integral on ", d.name, " of ", show(flux), ", coefficient ", k.text(), ", form ", form);
    MC_STEP(what);
    auto t = kh::make(m.exec(), old);
    fvcc::SurfaceIntegrate<T> op(fl);
    op.getCoefficient() *= k.get();
    if (form == 0) op.explicitOperation(t);
    else if (form == 1)
    {
        fvcc::SurfaceIntegrate<T> c(op);
        c.build(Input(Dictionary()));
        c.explicitOperation(t);
    }
    else if constexpr (std::is_same_v<T, scalar>)
    {
        auto o = k.get() * dsl::exp::div(fl);
        MC_CHECK(o.getType() == dsl::Operator::Type::Explicit, "type", "the divergence of a flux is not explicit");
        o.explicitOperation(t);
    }
    else
    {
        dsl::SpatialOperator<T> o(op);
        o.explicitOperation(t);
    }
    checkNear(val(t), sum(old, perVolume(d, net(d, flux), k.values)), "surface-integral", what);
    MC_CHECK(same(val(fl.internalField()), flux), "source-changed", what, " changed its argument");
}
template<typename T>
void sourceAll()
{
    const MeshData& d = pickMesh();
    auto p = pick();
    auto m = d.make(p.exec);
    int kind = choose(4, "coefficient"), form = choose(4, "form");
    Coefficient k(kind, m.exec(), d.nCells());
    auto v = distinct<T>(d.nCells(), 3), old = distinct<T>(d.nCells(), -300);
    auto cf = distinct<scalar>(d.nCells(), 0.5);
    auto phi = volField<T>(m, v, distinct<T>(d.nB(), 40));
    auto co = volField<scalar>(m, cf, distinct<scalar>(d.nB(), 60), "coeff");
    std::string what = mc::cat("source on ", d.name, ", coefficient ", k.text(), ", form ", form);
    MC_STEP(what);
    auto t = kh::make(m.exec(), old);
    fvcc::SourceTerm<T> op(dsl::Operator::Type::Explicit, co, phi);
    op.getCoefficient() *= k.get();
    if (form == 0) op.explicitOperation(t);
    else if (form == 1)
    {
        fvcc::SourceTerm<T> c(op);
        c.build(Input(Dictionary()));
        c.explicitOperation(t);
    }
    else if (form == 2)
    {
        dsl::SpatialOperator<T> o(op);
        o.explicitOperation(t);
    }
    else if constexpr (std::is_same_v<T, scalar>)
    {
        auto o = k.get() * dsl::exp::source(co, phi);
        MC_CHECK(o.getType() == dsl::Operator::Type::Explicit, "type", "an explicit source is not explicit");
        o.explicitOperation(t);
    }
    else
    {
        dsl::SpatialOperator<T> o(op);
        dsl::SpatialOperator<T> c(o);
        c.explicitOperation(t);
    }
    checkNear(val(t), sum(old, timesEach(k.values, timesEach(cf, v))), "source", what);
}
}
MC_SCENARIO(div_scalar, "divergence: 14 meshes x executors x orders x schemes x (flux signs on three internal and one boundary face, or 3 fluxes x 4 coefficients x 11 forms)") { divAll<scalar>(); }
MC_SCENARIO(div_vector, "the same for vectors") { divAll<Vector>(); }
MC_SCENARIO(grad, "gradient: 14 meshes x executors x orders x constant, affine, distinct and every unit field x 4 forms") { gradAll(); }
MC_SCENARIO(laplacian_scalar, "Laplacian: 14 meshes x executors x orders x 3 diffusivities x coefficients x constant, distinct and unit fields x 9 forms") { lapAll<scalar>(); }
MC_SCENARIO(laplacian_vector, "the same for vectors") { lapAll<Vector>(); }
MC_SCENARIO(normal_gradient_scalar, "face normal gradients and their coefficients: 14 meshes x executors x orders x forms") { normalGradAll<scalar>(); }
MC_SCENARIO(normal_gradient_vector, "the same for vectors") { normalGradAll<Vector>(); }
MC_SCENARIO(integral_scalar, "surface integral: 14 meshes x executors x orders x coefficients x distinct and every unit flux x forms") { integrateAll<scalar>(); }
MC_SCENARIO(integral_vector, "the same for vectors") { integrateAll<Vector>(); }
MC_SCENARIO(source_scalar, "source term: 14 meshes x executors x orders x coefficients x forms") { sourceAll<scalar>(); }
MC_SCENARIO(source_vector, "the same for vectors") { sourceAll<Vector>(); }
MC_SCENARIO(orders, "divergence, gradient, Laplacian and surface integral on 14 meshes, the order of each single kernel chosen independently (one kernel differs from ascending, up to 3 thorough)")
{
    const MeshData& d = pickMesh();
    int e = 1 + choose(2, "executor");
    int what = choose(4, "operator");
    auto m = d.make(execOf(e));
    auto v = distinct<scalar>(d.nCells(), 1), b = distinct<scalar>(d.nB(), 40), flux = distinct<scalar>(d.nFaces(), -2);
    auto phi = volField(m, v, b);
    auto fl = surfField(m, flux);
    fvcc::GeometryScheme::readOrCreate(m);
    mc::setDeviationBound(mc::thorough() ? 3 : 1);
    kk::begin(kk::Forward);
    kk::perKernel(true);
    auto t = target<scalar>(m, std::vector<scalar>(d.nCells(), 0.0));
    MC_STEP("operator ", what, " on ", d.name);
    if (what == 0)
    {
        fvcc::DivOperatorFactory<scalar>::create(m.exec(), m, Input(tokens({"Gauss", "upwind"})))->div(t, fl, phi, dsl::Coeff(1.0));
        checkNear(val(t.internalField()), divRef(d, UpwindScheme, flux, v, b, ones(d.nCells())), "div", "divergence");
    }
    else if (what == 1) checkNear(val(fvcc::GaussGreenGrad(m.exec(), m).grad(phi).internalField()), gradRef(d, v, b), "grad", "gradient");
    else if (what == 2)
    {
        fvcc::LaplacianOperatorFactory<scalar>::create(m.exec(), m, Input(tokens({"Gauss", "linear", "uncorrected"})))->laplacian(t, fl, phi, dsl::Coeff(1.0));
        checkNear(val(t.internalField()), lapRef(d, flux, v, b, ones(d.nCells())), "laplacian", "Laplacian");
    }
    else
    {
        fvcc::SurfaceIntegrate<scalar>(fl).explicitOperation(t.internalField());
        checkNear(val(t.internalField()), perVolume(d, net(d, flux), ones(d.nCells())), "surface-integral", "surface integral");
    }
    kk::begin(kk::Forward);
}
