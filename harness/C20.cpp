// Interpolation to faces: weights, linear and upwind schemes, boundary faces.
#include "fv.hpp"
#include "lifetimes.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/geometryScheme.hpp"
using namespace fv;

namespace
{
// the weight of the owner that makes the interpolation exact (cell and face centres on a line)
double exactWeight(const MeshData& m, size_t f)
{
    if (f >= m.nInt) return 1;
    double o = norm(sub(m.Cf[f], m.C[size_t(m.own[f])])), n = norm(sub(m.C[size_t(m.nei[f])], m.Cf[f]));
    return n / (o + n);
}
template<typename T>
std::vector<T> linearModel(const MeshData& m, const std::vector<T>& v, const std::vector<T>& b)
{
    std::vector<T> r;
    for (size_t f = 0; f < m.nFaces(); ++f)
    {
        double w = exactWeight(m, f);
        r.push_back(f < m.nInt ? plus(scale(w, v[size_t(m.own[f])]), scale(1 - w, v[size_t(m.nei[f])])) : b[f - m.nInt]);
    }
    return r;
}
template<typename T>
std::vector<T> upwindModel(const MeshData& m, const std::vector<scalar>& flux, const std::vector<T>& v, const std::vector<T>& b)
{
    std::vector<T> r;
    for (size_t f = 0; f < m.nFaces(); ++f) r.push_back(f >= m.nInt ? b[f - m.nInt] : v[size_t(flux[f] < 0 ? m.nei[f] : m.own[f])]);
    return r;
}
Input spec(const char* scheme, int form)
{
    if (form == 0) return Input(TokenList({std::string(scheme)}));
    return Input(Dictionary({{std::string("surfaceInterpolation"), std::string(scheme)}}));
}
// the interpolation object as users get hold of it
template<typename T, typename F>
void withScheme(const UnstructuredMesh& m, const char* scheme, int how, F&& use)
{
    using SI = fvcc::SurfaceInterpolation<T>;
    SI s(m.exec(), m, spec(scheme, how % 2));
    if (how < 2) return use(s);
    if (how == 2)
    {
        SI c(s);
        return use(c);
    }
    SI c(std::move(s));
    use(c);
}
template<typename T>
void checkUnchanged(const Vol<T>& f, const std::vector<T>& v, const std::vector<T>& b)
{
    MC_CHECK(same(val(f.internalField()), v) && same(val(f.boundaryField().value()), b), "source-changed", "interpolating changed the source field");
}
template<typename T>
void runLinear(const MeshData& d, const UnstructuredMesh& m, const std::vector<T>& v, const std::vector<T>& b, int how, int api)
{
    Vol<T> phi = volField(m, v, b);
    auto flux = surfField<scalar>(m, distinct<scalar>(d.nFaces(), -2));
    auto want = linearModel(d, v, b);
    std::string what = mc::cat("linear interpolation on ", d.name, " of ", show(v), " with boundary ", show(b));
    MC_STEP(what, " (object ", how, ", call ", api, ")");
    withScheme<T>(m, "linear", how, [&](const fvcc::SurfaceInterpolation<T>& s)
    {
        if (api == 0) // into a field with old content
        {
            Surf<T> dst = surfField<T>(m, distinct<T>(d.nFaces(), 500));
            s.interpolate(phi, dst);
            checkNear(val(dst.internalField()), want, "linear", what);
        }
        else if (api == 1)
        {
            Surf<T> dst(m.exec(), "dst", m, fvcc::createCalculatedBCs<fvcc::SurfaceBoundary<T>>(m));
            s.interpolate(flux, phi, dst);
            checkNear(val(dst.internalField()), want, "linear", what);
        }
        else if (api == 2) checkNear(val(s.interpolate(phi).internalField()), want, "linear", what);
        else checkNear(val(s.interpolate(flux, phi).internalField()), want, "linear", what);
    });
    checkUnchanged(phi, v, b);
}
template<typename T>
void runUpwind(const MeshData& d, const UnstructuredMesh& m, const std::vector<scalar>& flux, const std::vector<T>& v, const std::vector<T>& b, int how, int api)
{
    Vol<T> phi = volField(m, v, b);
    auto fl = surfField<scalar>(m, flux);
    auto want = upwindModel(d, flux, v, b);
    std::string what = mc::cat("upwind interpolation on ", d.name, " of ", show(v), " with boundary ", show(b), " and flux ", show(flux));
    MC_STEP(what, " (object ", how, ", call ", api, ")");
    withScheme<T>(m, "upwind", how, [&](const fvcc::SurfaceInterpolation<T>& s)
    {
        if (api == 0)
        {
            Surf<T> dst = surfField<T>(m, distinct<T>(d.nFaces(), 500));
            s.interpolate(fl, phi, dst);
            checkNear(val(dst.internalField()), want, "upwind", what);
        }
        else if (api == 1) checkNear(val(s.interpolate(fl, phi).internalField()), want, "upwind", what);
        else if (api == 2)
        {
            mc::expectAnyError("upwind-without-flux", [&] { s.interpolate(phi); }, "upwind interpolation without a flux");
            mc::expectAnyError("upwind-without-flux", [&] { s.weight(phi); }, "upwind weights without a flux");
        }
        else
        {
            auto w = val(s.weight(fl, phi).internalField());
            for (size_t f = 0; f < d.nFaces(); ++f)
            {
                MC_CHECK(w[f] >= 0 && w[f] <= 1, "weight-range", what, ": the weight of face ", f, " is ", w[f]);
                if (f < d.nInt) MC_CHECK(near(w[f], flux[f] < 0 ? 0 : 1), "weight", what, ": the weight of face ", f, " is ", w[f]);
            }
        }
    });
    checkUnchanged(phi, v, b);
    MC_CHECK(same(val(fl.internalField()), flux), "source-changed", "interpolating changed the flux");
}
template<typename T>
std::vector<T> pattern(size_t n, int k, int alphabet)
{
    // k < 0: enumerate, else fixed patterns
    std::vector<T> r;
    static const double A[] = {2, 0, -1.5};
    if (k < 0)
        for (size_t i = 0; i < n; ++i) r.push_back(of<T>(A[choose(alphabet, "value")]));
    else if (k == 0) r = distinct<T>(n, 1);
    else if (k == 1) r.assign(n, of<T>(3.25));
    else
        for (size_t i = 0; i < n; ++i) r.push_back(int(i) == k - 2 ? of<T>(1) : zeroOf<T>());
    return r;
}
template<typename T>
void linearAll()
{
    auto& L = meshList();
    const MeshData& d = L[size_t(choose(int(L.size()), "mesh"))];
    auto p = pick();
    UnstructuredMesh m = d.make(p.exec);
    int how = 0, api = 0, k = -1;
    if (choose(2, "enumerate values") == 0) k = choose(int(d.nCells()) + 2, "pattern"), how = choose(4, "object"), api = choose(4, "call");
    else if (d.nCells() > 3) mc::prune();
    auto v = pattern<T>(d.nCells(), k, 3);
    runLinear<T>(d, m, v, k == 1 ? std::vector<T>(d.nB(), of<T>(3.25)) : distinct<T>(d.nB(), 40), how, api);
}
template<typename T>
void upwindAll()
{
    auto& L = meshList();
    const MeshData& d = L[size_t(choose(int(L.size()), "mesh"))];
    auto p = pick2();
    UnstructuredMesh m = d.make(p.exec);
    std::vector<scalar> flux;
    static const double F[] = {1.5, -2.5, 0, -0.0, 1e-300, -1e-300};
    for (size_t f = 0; f < d.nFaces(); ++f)
    {
        if (f < d.nInt && f < 3) flux.push_back(F[choose(6, "flux")]);
        else flux.push_back(f % 3 == 0 ? -1.0 : f % 3 == 1 ? 2.0 : 0.0);
    }
    int api = choose(4, "call");
    int how = api < 2 ? choose(4, "object") : 0;
    runUpwind<T>(d, m, flux, distinct<T>(d.nCells(), 1), distinct<T>(d.nB(), 40), how, api);
}
}
MC_SCENARIO(linear_scalar, "linear scheme x 13 meshes x executors x orders x all values over {2,0,-1.5} (up to 3 cells) or patterns and unit vectors x object and call forms") { linearAll<scalar>(); }
MC_SCENARIO(linear_vector, "the same for vectors") { linearAll<Vector>(); }
MC_SCENARIO(upwind_scalar, "upwind scheme x 13 meshes x executors x orders x all signs of the flux (six magnitudes) on three faces x object and call forms, weights, missing flux") { upwindAll<scalar>(); }
MC_SCENARIO(upwind_vector, "the same for vectors") { upwindAll<Vector>(); }
MC_SCENARIO(weights, "geometric weights: between 0 and 1, exact where cell and face centres are on a line, complete; all meshes and a skewed one in six length scales from nanometre to megametre; through every access; library meshes of 1..16 cells")
{
    auto& L = meshList();
    int k = choose(int(L.size()) + 1 + 16, "mesh");
    static const double SIZE[] = {1, 1e-3, 1e-6, 1e-9, 1e3, 1e6};
    double size = k <= int(L.size()) ? SIZE[choose(6, "length scale")] : 1;
    auto p = pick();
    MeshData d;
    std::unique_ptr<UnstructuredMesh> mp;
    if (k < int(L.size())) d = L[size_t(k)];
    else if (k == int(L.size())) d = skewed();
    else
    {
        size_t n = size_t(k) - L.size();
        std::vector<scalar> xs;
        for (size_t i = 0; i <= n; ++i) xs.push_back(double(i) / double(n));
        d = line(xs);
        mp = std::make_unique<UnstructuredMesh>(NeoFOAM::create1DUniformMesh(p.exec, n));
    }
    if (size != 1) d = scaled(d, size);
    if (!mp) mp = std::make_unique<UnstructuredMesh>(d.make(p.exec));
    const UnstructuredMesh& m = *mp;
    int api = choose(4, "access");
    MC_STEP("weights of ", d.name, " access ", api);
    std::vector<scalar> w;
    auto phi = volField<scalar>(m, distinct<scalar>(d.nCells(), 1), distinct<scalar>(d.nB(), 40));
    auto fl = surfField<scalar>(m, distinct<scalar>(d.nFaces(), -2));
    fvcc::SurfaceInterpolation<scalar> s(m.exec(), m, spec("linear", 0));
    if (api == 0) w = val(fvcc::GeometryScheme::readOrCreate(m)->weights().internalField());
    else if (api == 1) w = val(s.weight(phi).internalField());
    else if (api == 2) w = val(s.weight(fl, phi).internalField());
    else
    {
        auto g = fvcc::GeometryScheme::readOrCreate(m);
        g->update();
        MC_CHECK(g == fvcc::GeometryScheme::readOrCreate(m), "cached", "the geometry of a mesh is created twice");
        w = val(g->weights().internalField());
    }
    MC_CHECK(w.size() == d.nFaces(), "weights", "there are ", w.size(), " weights for ", d.nFaces(), " faces");
    for (size_t f = 0; f < w.size(); ++f)
    {
        MC_CHECK(w[f] >= 0 && w[f] <= 1, "weight-range", d.name, ": the weight of face ", f, " is ", w[f]);
        if (k != int(L.size()) || f >= d.nInt) MC_CHECK(near(w[f], exactWeight(d, f)), "weights", d.name, ": the weight of face ", f, " is ", w[f], ", expected ", exactWeight(d, f));
    }
    // the face value is the linear profile at the face centre
    if (k != int(L.size()))
        for (int g = 0; g < 4; ++g)
        {
            Affine a {g == 3 ? 2.5 : 0.5, Vector((g == 0 || g == 3) / size, (g == 1 || g == 3 ? -2 : 0) / size, (g == 2) / size)};
            std::vector<scalar> v, b;
            for (auto& c : d.C) v.push_back(a(c));
            for (size_t f = d.nInt; f < d.nFaces(); ++f) b.push_back(a(d.Cf[f]));
            auto r = val(s.interpolate(volField<scalar>(m, v, b)).internalField());
            for (size_t f = 0; f < d.nFaces(); ++f) MC_CHECK(near(r[f], a(d.Cf[f])), "linear-exact", d.name, ": a linear profile is interpolated to ", r[f], " at face ", f, ", where it is ", a(d.Cf[f]));
        }
    else
    {
        auto r = val(s.interpolate(volField<scalar>(m, std::vector<scalar>(d.nCells(), 4.75), std::vector<scalar>(d.nB(), 4.75))).internalField());
        for (size_t f = 0; f < d.nFaces(); ++f) MC_CHECK(near(r[f], 4.75), "constant", "a constant is interpolated to ", r[f], " at face ", f);
    }
}
MC_SCENARIO(lifetimes, "all histories of up to 5 (6 thorough) events over two places where meshes of equal sizes and different geometry are made, copied, moved, destroyed and asked for their geometry: it is the one of that mesh, and one only; interpolation uses it")
{
    std::vector<MeshData> kinds = {line({0, 1, 3, 4}), line({0, 2, 2.5, 6})};
    meshLifetimes(kinds, mc::thorough() ? 6 : 5, [](const UnstructuredMesh& m, const MeshData& d, const std::string& what)
    {
        auto g = fvcc::GeometryScheme::readOrCreate(m);
        MC_CHECK(g && &g->weights().mesh() == &m && &g->deltaCoeffs().mesh() == &m && &g->nonOrthDeltaCoeffs().mesh() == &m, "cached", what, ": the geometry handed out refers to another mesh");
        MC_CHECK(g == fvcc::GeometryScheme::readOrCreate(m), "cached", what, ": the geometry is created twice");
        for (int k = 0; k < 2; ++k)
        {
            auto w = val(g->weights().internalField());
            for (size_t f = 0; f < d.nFaces(); ++f) MC_CHECK(near(w[f], exactWeight(d, f)), "weights", what, ": the weight of face ", f, " is ", w[f], ", expected ", exactWeight(d, f));
            g->update();
        }
        auto v = distinct<scalar>(d.nCells(), 1), b = distinct<scalar>(d.nB(), 40);
        fvcc::SurfaceInterpolation<scalar> s(m.exec(), m, spec("linear", 0));
        checkNear(val(s.interpolate(volField<scalar>(m, v, b)).internalField()), linearModel(d, v, b), "linear", what);
    });
}
