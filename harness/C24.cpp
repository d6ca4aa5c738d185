// Boundary conditions set exactly their own patch.
#include "bcs.hpp"
#include <set>
using namespace fv;

namespace
{
std::vector<MeshData>& meshes()
{
    static std::vector<MeshData> L = []
    {
        auto l = meshList();
        l.push_back(skewed());
        // five patches, one condition type each, with an empty one and cells with several faces
        l.push_back(abstractMesh(4, {{0, 1}, {2, 3}}, {{3, 0}, {0, 0, 1}, {}, {2, 1, 3}, {0}}));
        return l;
    }();
    return L;
}
const MeshData& pickMesh() { return meshes()[size_t(choose(int(meshes().size()), "mesh"))]; }

// everything a domain field stores
template<typename T>
struct State
{
    std::vector<T> in, value, refValue, refGrad;
    std::vector<scalar> fraction;
    template<typename F>
    explicit State(const F& f)
        : in(val(f.internalField())), value(val(f.boundaryField().value())), refValue(val(f.boundaryField().refValue())),
          refGrad(val(f.boundaryField().refGrad())), fraction(val(f.boundaryField().valueFraction()))
    {}
    bool operator==(const State& o) const { return same(in, o.in) && same(value, o.value) && same(refValue, o.refValue) && same(refGrad, o.refGrad) && same(fraction, o.fraction); }
    std::string text() const { return mc::cat("cells/faces ", show(in), " value ", show(value), " refValue ", show(refValue), " refGrad ", show(refGrad), " fraction ", show(fraction)); }
};
bool closeTo(double a, double b) { return a == b || std::abs(a - b) <= 1e-12 * (std::abs(a) + std::abs(b)); }
template<typename T>
bool closeTo(const T& a, const T& b)
{
    for (size_t i = 0; i < 3; ++i)
        if (!closeTo(a[i], b[i])) return false;
    return true;
}
// `now` is what becomes of `before` when the conditions of the patches in `which` are applied
template<typename T>
void checkVolume(const MeshData& d, const Conditions<T>& c, const State<T>& before, const State<T>& now, const std::set<size_t>& which, const std::string& what)
{
    MC_CHECK(same(now.in, before.in), "cells-changed", what, ": cell values were ", show(before.in), ", are ", show(now.in));
    auto want = c.values(d, before.in, before.value);
    for (size_t f = 0; f < d.nB(); ++f)
    {
        size_t p = d.patchOf(f);
        if (!which.count(p) || c.type[p] >= CalculatedBc)
        {
            bool same_ = same(now.value[f], before.value[f]) && same(now.refValue[f], before.refValue[f]) && same(now.refGrad[f], before.refGrad[f]) && same(now.fraction[f], before.fraction[f]);
            MC_CHECK(same_, "other-patch", what, ": face ", f, " of the ", BCNAME[c.type[p]], " patch ", p, " changed\n before ", before.text(), "\n now ", now.text());
            continue;
        }
        MC_CHECK(closeTo(now.value[f], want[f]), "value", what, ": face ", f, " of the ", BCNAME[c.type[p]], " patch ", p, " has ", show(now.value[f]), ", expected ", show(want[f]));
        // the components operators take apart describe the same value
        double w = now.fraction[f];
        MC_CHECK(w >= 0 && w <= 1, "fraction", what, ": face ", f, " has the value fraction ", w);
        T mixed = zeroOf<T>();
        if (w > 0) mixed = scale(w, now.refValue[f]);
        if (w < 1) mixed = plus(mixed, scale(1 - w, plus(now.in[size_t(d.faceCells[f])], scale(1 / d.bdc[f], now.refGrad[f]))));
        MC_CHECK(closeTo(mixed, now.value[f]), "components", what, ": face ", f, " of the ", BCNAME[c.type[p]], " patch ", p, " has the value ", show(now.value[f]), " but its components give ", show(mixed));
        if (c.type[p] == FixedValueBc) MC_CHECK(w == 1, "components", what, ": a fixed value has the value fraction ", w);
        if (c.type[p] == FixedGradientBc) MC_CHECK(w == 0, "components", what, ": a fixed gradient has the value fraction ", w);
    }
    mc::noteState(now.text());
}
std::set<size_t> all(const MeshData& d)
{
    std::set<size_t> s;
    for (size_t p = 0; p < d.nPatches(); ++p) s.insert(p);
    return s;
}
template<typename T>
std::vector<T> cells(const MeshData& d, int k)
{
    auto v = distinct<T>(d.nCells(), k == 0 ? 3.0 : -20.0);
    if (k == 1) std::reverse(v.begin(), v.end());
    return v;
}
template<typename T>
void fill(fvcc::VolumeField<T>& f, const MeshData& d, int k)
{
    put(f.internalField(), cells<T>(d, k));
    put(f.boundaryField().value(), distinct<T>(d.nB(), 100));
    put(f.boundaryField().refValue(), distinct<T>(d.nB(), 7000));
    put(f.boundaryField().refGrad(), distinct<T>(d.nB(), 8000));
    put(f.boundaryField().valueFraction(), std::vector<scalar>(d.nB(), 0.375));
}
// applies the conditions, again, and again after new cell values
template<typename T>
void exercise(const MeshData& d, const Conditions<T>& c, Vol<T>& f, const std::string& what)
{
    State<T> s0(f);
    f.correctBoundaryConditions();
    State<T> s1(f);
    checkVolume(d, c, s0, s1, all(d), what);
    f.correctBoundaryConditions();
    MC_CHECK(State<T>(f) == s1, "reapply", what, ": applying the conditions again changed ", s1.text(), " to ", State<T>(f).text());
    put(f.internalField(), cells<T>(d, 1));
    State<T> s2(f);
    f.correctBoundaryConditions();
    checkVolume(d, c, s2, State<T>(f), all(d), what + ", after new cell values");
    MC_STEP(what, ": corrected 3 times");
}
template<typename T>
void volumeAll()
{
    const MeshData& d = pickMesh();
    auto pk = pick2();
    auto m = d.make(pk.exec);
    auto c = pickConditions<T>(d, 5);
    int how = choose(7, "way of building");
    auto bcs = c.make(m);
    NeoFOAM::Database db;
    std::string what = mc::cat(d.name, ", ", EXEC[pk.e], ", [", c.text(), "], form ", how);
    Vol<T> f(m.exec(), "phi", m, bcs);
    fill(f, d, 0);
    if (how == 0) return exercise(d, c, f, what);
    if (how == 1) // cell values given
    {
        Vol<T> g(m.exec(), "phi", m, f.internalField(), bcs);
        put(g.boundaryField().value(), distinct<T>(d.nB(), 100));
        put(g.boundaryField().refValue(), distinct<T>(d.nB(), 7000));
        put(g.boundaryField().refGrad(), distinct<T>(d.nB(), 8000));
        put(g.boundaryField().valueFraction(), std::vector<scalar>(d.nB(), 0.375));
        return exercise(d, c, g, what);
    }
    if (how == 2) // cell and boundary data given
    {
        Vol<T> g(m.exec(), "phi", m, f.internalField(), f.boundaryField(), bcs);
        MC_CHECK(State<T>(g) == State<T>(f), "construct", what, ": built with ", State<T>(g).text());
        return exercise(d, c, g, what);
    }
    if (how == 3 || how == 4) // a copy; source and copy do not touch each other
    {
        Vol<T> g(f);
        MC_CHECK(State<T>(g) == State<T>(f), "copy", what, ": copied as ", State<T>(g).text());
        State<T> s(f);
        if (how == 3)
        {
            exercise(d, c, g, what);
            MC_CHECK(State<T>(f) == s, "copy-shares", what, ": correcting the copy changed the source");
            exercise(d, c, f, what);
        }
        else
        {
            exercise(d, c, f, what);
            MC_CHECK(State<T>(g) == s, "copy-shares", what, ": correcting the source changed the copy");
            exercise(d, c, g, what);
        }
        return;
    }
    if (how == 5) // conditions taken from another field
    {
        Vol<T> g(m.exec(), "psi", m, f.boundaryConditions());
        fill(g, d, 0);
        State<T> s(f);
        exercise(d, c, g, what);
        MC_CHECK(State<T>(f) == s, "copy-shares", what, ": conditions taken from another field act on that field");
        return;
    }
    auto& g = registered(db, f);
    MC_CHECK(State<T>(g) == State<T>(f), "register", what, ": registered as ", State<T>(g).text());
    State<T> s(f);
    exercise(d, c, g, what);
    MC_CHECK(State<T>(f) == s, "copy-shares", what, ": correcting the registered field changed its source");
}
MC_SCENARIO(volume_scalar, "15 meshes x executors x orders x assignments of the 5 condition types to patches (all for up to 2 patches, shifts beyond) x 7 ways of building the field; applied, reapplied, applied after new cell values") { volumeAll<scalar>(); }
MC_SCENARIO(volume_vector, "the same for vectors") { volumeAll<Vector>(); }

// single conditions applied one by one
template<typename T>
void single()
{
    const MeshData& d = pickMesh();
    if (!d.nPatches()) return mc::prune();
    auto pk = pick2();
    auto m = d.make(pk.exec);
    auto c = pickConditions<T>(d, 5);
    auto bcs = c.make(m);
    Vol<T> f(m.exec(), "phi", m, bcs);
    fill(f, d, 0);
    NeoFOAM::DomainField<T> g(m.exec(), f.internalField(), f.boundaryField());
    int n = mc::thorough() ? 3 : 2;
    for (int i = 0; i < n; ++i)
    {
        int p = choose(int(d.nPatches()), "patch");
        bool copied = i == 1;
        State<T> s(g);
        if (copied)
        {
            auto b = bcs[size_t(p)];
            b.correctBoundaryCondition(g);
        }
        else bcs[size_t(p)].correctBoundaryCondition(g);
        checkVolume(d, c, s, State<T>(g), {size_t(p)}, mc::cat(d.name, ", ", EXEC[pk.e], ", [", c.text(), "], only patch ", p, copied ? " (copied condition)" : ""));
        put(g.internalField(), cells<T>(d, i % 2 ? 0 : 1));
        MC_STEP("corrected patch ", p);
    }
}
MC_SCENARIO(single_scalar, "single conditions applied in all sequences of 2 (3) patches, directly and through copies, new cell values in between") { single<scalar>(); }
MC_SCENARIO(single_vector, "the same for vectors") { single<Vector>(); }

// ---- surface fields --------------------------------------------------------------------------
template<typename T>
void surfaceAll()
{
    static const char* N[] = {"fixedValue", "calculated", "empty"};
    const MeshData& d = pickMesh();
    auto pk = pick2();
    auto m = d.make(pk.exec);
    std::vector<int> type(d.nPatches());
    std::vector<T> num;
    std::vector<fvcc::SurfaceBoundary<T>> bcs;
    int shift = d.nPatches() <= 3 ? 0 : choose(6, "conditions");
    std::string text;
    for (size_t p = 0; p < d.nPatches(); ++p)
    {
        type[p] = d.nPatches() <= 3 ? choose(3, "condition") : shift < 3 ? int(p + size_t(shift)) % 3 : shift - 3;
        num.push_back(of<T>(2.5 + 1.5 * double(p)));
        Dictionary dict({{"type", std::string(N[type[p]])}});
        if (type[p] == 0) dict.insert("fixedValue", num[p]);
        bcs.push_back(fvcc::SurfaceBoundary<T>(m, dict, p));
        text += mc::cat(p ? ", " : "", N[type[p]]);
    }
    Surf<T> f(m.exec(), "phi", m, bcs);
    put(f.internalField(), distinct<T>(d.nFaces(), 3));
    put(f.boundaryField().value(), distinct<T>(d.nB(), 100));
    put(f.boundaryField().refValue(), distinct<T>(d.nB(), 7000));
    put(f.boundaryField().refGrad(), distinct<T>(d.nB(), 8000));
    put(f.boundaryField().valueFraction(), std::vector<scalar>(d.nB(), 0.375));
    int copied = choose(2, "copied");
    Surf<T> g(f);
    Surf<T>& h = copied ? g : f;
    State<T> s(f);
    std::string what = mc::cat(d.name, ", ", EXEC[pk.e], ", [", text, "]", copied ? ", copy" : "");
    MC_CHECK(State<T>(g) == s, "copy", what, ": the copy holds ", State<T>(g).text());
    h.correctBoundaryConditions();
    State<T> n(h);
    for (size_t x = 0; x < d.nFaces(); ++x)
    {
        size_t b = x - d.nInt;
        bool fixed = x >= d.nInt && type[d.patchOf(b)] == 0;
        MC_CHECK(same(n.in[x], fixed ? num[d.patchOf(b)] : s.in[x]), "surface-face", what, ": face ", x, " is ", show(n.in[x]), ", was ", show(s.in[x]));
        if (x < d.nInt) continue;
        MC_CHECK(same(n.value[b], fixed ? num[d.patchOf(b)] : s.value[b]), "surface-value", what, ": boundary face ", b, " has ", show(n.value[b]), ", had ", show(s.value[b]));
        if (!fixed) MC_CHECK(same(n.refValue[b], s.refValue[b]) && same(n.refGrad[b], s.refGrad[b]) && n.fraction[b] == s.fraction[b], "surface-other", what, ": boundary face ", b, " changed to ", n.text());
        else MC_CHECK(same(n.refValue[b], num[d.patchOf(b)]), "surface-refvalue", what, ": boundary face ", b, " has the reference value ", show(n.refValue[b]));
    }
    mc::noteState(n.text());
    h.correctBoundaryConditions();
    MC_CHECK(State<T>(h) == n, "reapply", what, ": applying again changed ", n.text(), " to ", State<T>(h).text());
    MC_CHECK(State<T>(copied ? f : g) == s, "copy-shares", what, ": correcting one of source and copy changed the other");
    MC_STEP(what);
}
MC_SCENARIO(surface_scalar, "15 meshes x executors x orders x assignments of the 3 surface condition types x source or copy") { surfaceAll<scalar>(); }
MC_SCENARIO(surface_vector, "the same for vectors") { surfaceAll<Vector>(); }

// ---- selection and description -----------------------------------------------------------------
template<typename F>
bool refused(F&& f)
{
    try
    {
        f();
    }
    catch (const mc::Violation&)
    {
        throw;
    }
    catch (const mc::ExitCalled&)
    {
        return true;
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}
template<template<typename> class B, typename T>
void selection(bool volume)
{
    static const char* TYPE[] = {"fixedValue", "fixedGradient", "extrapolated", "calculated", "empty", "FixedValue", "fixed", "", "fixedValue "};
    const MeshData& d = pickMesh();
    if (!d.nPatches()) return mc::prune();
    auto m = d.make(execOf(pickExec()));
    kk::begin(kk::Forward);
    int t = choose(10, "type entry"); // 9: no type given
    int a = choose(5, "entries given");
    size_t p = size_t(choose(int(d.nPatches()), "patch"));
    Dictionary dict;
    if (t < 9) dict.insert("type", std::string(TYPE[t]));
    if (a == 1 || a == 3) dict.insert("fixedValue", of<T>(4));
    if (a == 2 || a == 3) dict.insert("fixedGradient", of<T>(-3));
    if (a == 4) // values of another type
    {
        dict.insert("fixedValue", std::string("4"));
        dict.insert("fixedGradient", std::string("4"));
    }
    bool known = volume ? t < 5 : t == 0 || t == 3 || t == 4;
    bool ok = known && !(t == 0 && a != 1 && a != 3) && !(t == 1 && a != 2 && a != 3);
    std::string what = mc::cat(volume ? "volume" : "surface", " type '", t < 9 ? TYPE[t] : "(none)", "', entries ", a);
    bool no = refused([&] { B<T> b(m, dict, p); });
    MC_CHECK(no != ok, ok ? "select-refused" : "select-accepted", what, no ? " was refused" : " was accepted");
    MC_STEP(what);
    if (!ok) return;
    B<T> b(m, dict, p);
    auto describes = [&](auto& x, const char* w)
    {
        MC_CHECK(x.patchID() == p && x.patchStart() == label(d.off[p]) && x.patchEnd() == label(d.off[p + 1]) && x.patchSize() == d.off[p + 1] - d.off[p]
                     && x.range() == std::make_pair(size_t(d.off[p]), size_t(d.off[p + 1])),
                 "patch-range", what, ", ", w, ": patch ", p, " reported as ", x.patchID(), ", ", x.patchStart(), "..", x.patchEnd(), " (", x.patchSize(), ")");
    };
    describes(b, "condition");
    B<T> c(b);
    describes(c, "copy");
    mc::noteState(mc::cat(t, a, p, d.name));
}
MC_SCENARIO(select_volume_scalar, "type names known, unknown, misspelt or missing x entries present, missing or of another type x patches x meshes x executors") { selection<fvcc::VolumeBoundary, scalar>(true); }
MC_SCENARIO(select_volume_vector, "the same for vectors") { selection<fvcc::VolumeBoundary, Vector>(true); }
MC_SCENARIO(select_surface_scalar, "the same for surface conditions") { selection<fvcc::SurfaceBoundary, scalar>(false); }
MC_SCENARIO(select_surface_vector, "the same for vectors") { selection<fvcc::SurfaceBoundary, Vector>(false); }

// the factories that give every patch one type
template<typename T>
void everyPatch()
{
    const MeshData& d = pickMesh();
    auto pk = pick2();
    auto m = d.make(pk.exec);
    int which = choose(2, "factory");
    Conditions<T> c(d);
    for (auto& t : c.type) t = which ? ExtrapolatedBc : CalculatedBc;
    auto bcs = which ? fvcc::createExtrapolatedBCs<fvcc::VolumeBoundary<T>>(m) : fvcc::createCalculatedBCs<fvcc::VolumeBoundary<T>>(m);
    MC_CHECK(bcs.size() == d.nPatches(), "every-patch", bcs.size(), " conditions for ", d.nPatches(), " patches");
    for (size_t p = 0; p < bcs.size(); ++p) MC_CHECK(bcs[p].patchID() == p, "every-patch", "condition ", p, " belongs to patch ", bcs[p].patchID());
    Vol<T> f(m.exec(), "phi", m, bcs);
    fill(f, d, 0);
    exercise(d, c, f, mc::cat(d.name, ", ", EXEC[pk.e], ", all ", BCNAME[c.type.empty() ? CalculatedBc : c.type[0]]));
    auto sb = fvcc::createCalculatedBCs<fvcc::SurfaceBoundary<T>>(m);
    MC_CHECK(sb.size() == d.nPatches(), "every-patch", sb.size(), " surface conditions for ", d.nPatches(), " patches");
    Surf<T> s = surfField<T>(m, distinct<T>(d.nFaces(), 3));
    put(s.boundaryField().refValue(), distinct<T>(d.nB(), 5)), put(s.boundaryField().refGrad(), distinct<T>(d.nB(), 6)), put(s.boundaryField().valueFraction(), std::vector<scalar>(d.nB(), 0.25));
    State<T> before(s);
    s.correctBoundaryConditions();
    MC_CHECK(State<T>(s) == before, "surface-other", d.name, ": calculated surface conditions changed ", before.text(), " to ", State<T>(s).text());
}
MC_SCENARIO(every_patch_scalar, "conditions for every patch from createCalculatedBCs and createExtrapolatedBCs on 15 meshes x executors x orders") { everyPatch<scalar>(); }
MC_SCENARIO(every_patch_vector, "the same for vectors") { everyPatch<Vector>(); }

// every order of the faces, not only forward and reverse
MC_SCENARIO(orders, "one mesh with five patches x executors x all fixed orders and each single deviation of one launch x shifts of the condition types")
{
    const MeshData& d = meshes().back();
    int e = pickExec();
    mc::setDeviationBound(mc::thorough() ? 3 : 1);
    kk::begin(kk::Forward);
    kk::perKernel(true);
    auto m = d.make(execOf(e));
    auto c = pickConditions<scalar>(d, 5);
    auto f = conditioned(m, c, cells<scalar>(d, 0), distinct<scalar>(d.nB(), 100));
    exercise(d, c, f, mc::cat("five patches, ", EXEC[e], ", [", c.text(), "]"));
}
}
