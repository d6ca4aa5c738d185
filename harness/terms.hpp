// Terms of equations for a scalar or vector unknown together with what they evaluate to.
#pragma once
#include "opref.hpp"
#include "bcs.hpp"
#include "systems.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/ddtOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
#include "NeoFOAM/dsl/explicit.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/dsl/solver.hpp"
namespace fv
{
namespace dsl = NeoFOAM::dsl;
inline TokenList tokens(std::initializer_list<const char*> l)
{
    std::vector<std::any> v;
    for (auto s : l) v.push_back(std::string(s));
    return TokenList(v);
}
inline Dictionary schemes(const std::string& ddt, const char* div = "upwind")
{
    Dictionary s;
    if (!ddt.empty()) s.insert("ddtSchemes", Dictionary({{"type", ddt}}));
    s.insert("divSchemes", Dictionary({{"div(flux,phi)", tokens({"Gauss", div})}}));
    s.insert("laplacianSchemes", Dictionary({{"laplacian(gamma,phi)", tokens({"Gauss", "linear", "uncorrected"})}}));
    return s;
}
enum Term
{
    ExpSource,
    ExpDiv,
    ExpSurf,
    ExpLap,
    ImpSource,
    ImpDiv,
    ImpLap,
    Terms
};
inline const char* TERM[] = {"exp::source", "exp::div", "surfaceIntegrate", "laplacian(explicit)", "imp::source", "imp::div", "imp::laplacian"};
inline bool isImplicit(int t) { return t >= ImpSource; }
struct Use
{
    int term;
    double factor;
    std::string text() const { return mc::cat(factor, "*", TERM[term]); }
};
// the things equations refer to
template<typename T>
struct World
{
    const MeshData& d;
    UnstructuredMesh m;
    std::vector<scalar> fluxV, gammaV, coeffV;
    std::vector<T> surfV;
    Surf<scalar> flux, gamma;
    Surf<T> surf;
    Vol<scalar> coeff;
    Conditions<T> c;
    Scheme div;
    static std::vector<scalar> some(size_t n, double a, bool sign)
    {
        std::vector<scalar> r;
        for (size_t i = 0; i < n; ++i) r.push_back((sign && i % 3 == 1 ? -1 : 1) * (a + 0.25 * double((i * 5) % 7)));
        return r;
    }
    World(const MeshData& d_, const Executor& ex, Conditions<T> c_, Scheme s = UpwindScheme)
        : d(d_), m(d.make(ex)), fluxV(some(d.nFaces(), 0.5, true)), gammaV(some(d.nFaces(), 0.25, false)), coeffV(some(d.nCells(), 0.75, false)), surfV(distinct<T>(d.nFaces(), 0.75)),
          flux(surfField(m, fluxV)), gamma(surfField(m, gammaV, "gamma")), surf(surfField(m, surfV, "surf")), coeff(volField<scalar>(m, coeffV, distinct<scalar>(d.nB(), 60), "coeff")), c(c_), div(s)
    {}
    // sum of the terms per cell for cell values v with boundary values b
    std::vector<T> value(const Use& u, const std::vector<T>& v, const std::vector<T>& b) const
    {
        std::vector<scalar> k(d.nCells(), u.factor);
        switch (u.term)
        {
        case ExpSource:
        case ImpSource: return timesEach(k, timesEach(coeffV, v));
        case ExpDiv:
        case ImpDiv: return divRef(d, div, fluxV, v, b, k);
        case ExpLap:
        case ImpLap: return lapRef(d, gammaV, v, b, k);
        default: return perVolume(d, net(d, surfV), k);
        }
    }
    std::vector<T> values(const std::vector<Use>& us, int which, const std::vector<T>& v, const std::vector<T>& b) const // 0 explicit, 1 implicit, 2 all
    {
        std::vector<T> r(d.nCells(), zeroOf<T>());
        for (auto& u : us)
            if (which == 2 || int(isImplicit(u.term)) == which) r = sum(r, value(u, v, b));
        return r;
    }
    dsl::SpatialOperator<T> make(const Use& u, Vol<T>& phi)
    {
        return u.factor * make(u.term, phi);
    }
    dsl::SpatialOperator<T> make(int t, Vol<T>& phi)
    {
        constexpr auto EXP = dsl::Operator::Type::Explicit;
        switch (t)
        {
        case ExpSource:
            if constexpr (std::is_same_v<T, scalar>) return dsl::exp::source(coeff, phi);
            else return fvcc::SourceTerm<T>(EXP, coeff, phi);
        case ExpDiv:
            if constexpr (std::is_same_v<T, scalar>) return dsl::exp::div(flux, phi);
            else return fvcc::DivOperator<T>(EXP, flux, phi);
        case ExpSurf: return fvcc::SurfaceIntegrate<T>(surf);
        case ExpLap: return fvcc::LaplacianOperator<T>(EXP, gamma, phi);
        case ImpSource: return dsl::imp::source(coeff, phi);
        case ImpDiv: return dsl::imp::div(flux, phi);
        default: return dsl::imp::laplacian(gamma, phi);
        }
    }
    void untouched(const std::string& what) const
    {
        MC_CHECK(same(val(flux.internalField()), fluxV) && same(val(gamma.internalField()), gammaV) && same(val(surf.internalField()), surfV) && same(val(coeff.internalField()), coeffV), "others", what, " changed a field that is not the unknown");
    }
};
// all sets of up to `most` of the terms [from, to), with one of three assignments of factors
inline std::vector<Use> pickTerms(int from, int to, int most)
{
    std::vector<Use> r;
    int left = most, f = choose(3, "factors");
    for (int t = from; t < to && left; ++t)
        if (choose(2, "term"))
        {
            static const double K[3][3] = {{1, 1, 1}, {-1, 2, -0.5}, {0.5, -2, 1}};
            r.push_back({t, K[f][r.size() % 3]});
            --left;
        }
    if (r.empty() && f) mc::prune();
    return r;
}
using kh::show;
inline std::string show(const std::vector<Use>& us)
{
    std::string s;
    for (auto& u : us) s += " + " + u.text();
    return s;
}
template<typename T>
std::vector<T> shifted(std::vector<T> a, double k, const std::vector<T>& b) // a + k b
{
    for (size_t i = 0; i < a.size(); ++i) a[i] = plus(a[i], scale(k, b[i]));
    return a;
}
template<typename F>
bool refused(F&& f)
{
    try
    {
        f();
    }
    catch (const mc::ExitCalled&)
    {
        return true;
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}
}
