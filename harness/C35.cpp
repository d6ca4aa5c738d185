// The reported Courant number is the true maximum over all cells.
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/auxiliary/coNum.hpp"
#include <iostream>
using namespace fv;

namespace
{
std::vector<MeshData>& meshes()
{
    static std::vector<MeshData> L = []
    {
        auto l = meshList();
        l.push_back(skewed());
        return l;
    }();
    return L;
}
double expected(const MeshData& d, const std::vector<scalar>& flux, double dt)
{
    std::vector<double> s(d.nCells(), 0.0);
    for (size_t f = 0; f < d.nFaces(); ++f)
    {
        s[size_t(d.own[f])] += std::abs(flux[f]);
        if (f < d.nInt) s[size_t(d.nei[f])] += std::abs(flux[f]);
    }
    double m = 0;
    for (size_t c = 0; c < d.nCells(); ++c) m = std::max(m, s[c] / d.V[c]);
    return 0.5 * dt * m;
}
struct Capture
{
    std::ostringstream o;
    std::streambuf* old = std::cout.rdbuf(o.rdbuf());
    ~Capture() { std::cout.rdbuf(old); }
};
const double DT[] = {0.5, 1e-3, 0, 7};
void run(const MeshData& d, const std::vector<scalar>& flux, double dt, const Executor& ex)
{
    auto m = d.make(ex);
    auto f = surfField(m, flux);
    // boundary data of a surface field may be anything: the face values decide
    put(f.boundaryField().value(), distinct<scalar>(d.nB(), 5000));
    double want = expected(d, flux, dt);
    std::string text, what = mc::cat("flux ", show(flux), " on ", d.name, ", step ", dt, ", ", EXEC[indexOf(ex)]);
    double got;
    {
        Capture c;
        got = fvcc::computeCoNum(f, dt);
        text = c.o.str();
    }
    MC_STEP(what, " -> ", got);
    MC_CHECK(near(got, want), "courant", what, ": ", got, ", expected ", want);
    MC_CHECK(got >= 0, "negative", what, ": ", got);
    auto at = text.find("max: ");
    if (at != std::string::npos)
    {
        double said = std::stod(text.substr(at + 5));
        MC_CHECK(std::abs(said - want) <= 1e-6 * std::max(1.0, want), "reported", what, ": printed '", text, "', expected a maximum of ", want);
    }
    // directions do not matter
    auto turned = flux;
    for (size_t k = 0; k < turned.size(); ++k) turned[k] = k % 2 ? turned[k] : -turned[k];
    auto g = surfField(m, turned);
    {
        Capture c;
        MC_CHECK(near(fvcc::computeCoNum(g, dt), want), "direction", what, " with directions turned");
    }
    MC_CHECK(same(val(f.internalField()), flux) && same(val(f.boundaryField().value()), distinct<scalar>(d.nB(), 5000)), "source-changed", what, " changed the flux");
    mc::noteState(mc::cat(got, d.name));
}
// every face in turn dominates; every cell can hold the maximum
void dominating()
{
    auto p = pick();
    auto& d = meshes()[size_t(choose(int(meshes().size()), "mesh"))];
    size_t f = size_t(choose(int(d.nFaces()) + 1, "dominating face"));
    int base = choose(3, "others"), sign = choose(2, "sign");
    std::vector<scalar> flux;
    for (size_t k = 0; k < d.nFaces(); ++k) flux.push_back(base == 0 ? 0.0 : base == 1 ? (k % 2 ? -0.25 : 0.5) * double(k + 1) : -1.0);
    if (f < d.nFaces()) flux[f] = sign ? -1000 : 1000;
    run(d, flux, DT[choose(4, "step")], p.exec);
}
void patterns()
{
    auto p = pick2();
    static const size_t K[] = {0, 1, 2, 3, 6, 7, 8, 9, 10, 11};
    auto& d = meshes()[K[choose(10, "mesh")]];
    static const double F[] = {1.5, -2.5, 0, -0.125};
    std::vector<scalar> flux;
    size_t n = mc::thorough() ? 6 : 4;
    for (size_t k = 0; k < d.nFaces(); ++k) flux.push_back(k < n ? F[choose(mc::thorough() ? 4 : 3, "flux")] : k % 3 ? 0.5 : -1.0);
    run(d, flux, DT[0], p.exec);
}
// all orders, chunkings and joins of all kernels, one kernel at a time
void orders()
{
    int e = 1 + choose(2, "executor");
    static const size_t K[] = {1, 7, 8, 11, 9, 2};
    auto& d = meshes()[K[choose(6, "mesh")]];
    kk::begin(kk::Forward);
    kk::allUpTo(4);
    kk::perKernel(true);
    mc::setDeviationBound(1);
    std::vector<scalar> flux;
    size_t top = size_t(choose(int(d.nFaces()), "dominating face"));
    for (size_t k = 0; k < d.nFaces(); ++k) flux.push_back(k == top ? -8.0 : (k % 2 ? -0.25 : 0.5) * double(k + 1));
    run(d, flux, 0.5, execOf(e));
}
void uniform()
{
    auto p = pick2();
    int n = 1 + choose(mc::thorough() ? 24 : 8, "cells");
    auto m = NeoFOAM::create1DUniformMesh(p.exec, size_t(n));
    double u = choose(2, "velocity") ? -3 : 0.75, dt = DT[choose(2, "step")];
    auto flux = surfField(m, std::vector<scalar>(size_t(n) + 1, u));
    Capture c;
    double got = fvcc::computeCoNum(flux, dt), want = dt * std::abs(u) * n;
    MC_CHECK(near(got, want), "uniform", n, " uniform cells, velocity ", u, ": ", got, ", expected ", want);
    MC_STEP("uniform ", n);
}
}
MC_SCENARIO(dominating_, "14 meshes x every face (none) dominating x sign x three levels of the others x four steps x executors x fixed orders") { dominating(); }
MC_SCENARIO(patterns_, "10 meshes x all patterns of 3 (4 thorough) flux values on the first 4 (6 thorough) faces x executors x orders") { patterns(); }
MC_SCENARIO(orders_, "6 meshes x every face dominating x all orders, chunkings and joins of one kernel at a time") { orders(); }
MC_SCENARIO(uniform_, "uniform meshes up to 8 (24 thorough) cells with a constant velocity") { uniform(); }
