// Boundary and domain fields: layout by patch offsets, copies, executors, independence.
#include "meshes.hpp"
#include "NeoFOAM/fields/boundaryFields.hpp"
#include "NeoFOAM/fields/domainField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp"
#include <memory>
using namespace mh;
using mc::choose;
using NeoFOAM::BoundaryFields;
using NeoFOAM::DomainField;
namespace fvcc = NeoFOAM::finiteVolume::cellCentred;

namespace
{
template<typename T>
T mk(int k)
{
    if constexpr (std::is_same_v<T, Vector>) return Vector(k, -k, k + 0.5);
    else return static_cast<T>(k);
}
template<typename T>
struct Model
{
    int e = 0;
    std::vector<localIdx> off;
    std::vector<T> internal, value, refValue, refGrad;
    std::vector<scalar> fraction;
    std::vector<int> types;
};
// all patch layouts with up to maxP patches of 0..maxN faces
std::vector<localIdx> pickOffsets(int maxP, int maxN, int minP = 0)
{
    int p = minP + choose(maxP + 1 - minP, "patches");
    std::vector<localIdx> o {0};
    for (int i = 0; i < p; ++i) o.push_back(o.back() + localIdx(choose(maxN + 1, "patch size")));
    return o;
}
std::vector<localIdx> few()
{
    static const std::vector<std::vector<localIdx>> L = {{0}, {0, 1}, {0, 0, 2}};
    return L[size_t(choose(3, "layout"))];
}
template<typename T>
void checkBoundary(const BoundaryFields<T>& b, const Model<T>& m, const std::string& w)
{
    auto& mut = const_cast<BoundaryFields<T>&>(b);
    MC_CHECK(indexOf(mut.exec()) == m.e, "executor", w, " reports executor ", EXEC[indexOf(mut.exec())], ", its data was put on ", EXEC[m.e]);
    auto on = [&](const auto& f, const char* n)
    { MC_CHECK(indexOf(f.exec()) == m.e, "executor", w, ": ", n, " is on ", EXEC[indexOf(f.exec())], ", expected ", EXEC[m.e]); };
    on(b.value(), "value"), on(b.refValue(), "refValue"), on(b.valueFraction(), "valueFraction"), on(b.refGrad(), "refGrad"), on(b.boundaryTypes(), "boundaryTypes"), on(b.offset(), "offset");
    size_t nf = m.off.back(), np = m.off.size() - 1;
    MC_CHECK(b.nBoundaries() == np && b.nBoundaryFaces() == nf, "counts", w, ": ", b.nBoundaries(), " patches and ", b.nBoundaryFaces(), " faces, expected ", np, " and ", nf);
    checkField(b.value(), m.value, "value", w + ": value");
    checkField(b.refValue(), m.refValue, "refValue", w + ": refValue");
    checkField(b.valueFraction(), m.fraction, "valueFraction", w + ": valueFraction");
    checkField(b.refGrad(), m.refGrad, "refGrad", w + ": refGrad");
    checkField(b.boundaryTypes(), m.types, "boundaryTypes", w + ": boundaryTypes");
    checkField(b.offset(), m.off, "offset", w + ": offset");
    MC_CHECK(&mut.value() == &b.value() && &mut.refValue() == &b.refValue() && &mut.valueFraction() == &b.valueFraction() && &mut.refGrad() == &b.refGrad(), "accessor", w, ": constant and modifiable access differ");
    for (size_t p = 0; p < np; ++p)
    {
        auto r = b.range(localIdx(p));
        MC_CHECK(r.first == m.off[p] && r.second == m.off[p + 1], "range", w, ": patch ", p, " has range [", r.first, ",", r.second, "), its offsets say [", m.off[p], ",", m.off[p + 1], ")");
    }
}
// gives the library object and its model all different content
template<typename T>
void fillAll(BoundaryFields<T>& b, Model<T>& m, int base)
{
    size_t nf = m.off.back(), np = m.off.size() - 1;
    m.value.clear(), m.refValue.clear(), m.refGrad.clear(), m.fraction.clear(), m.types.clear();
    for (size_t i = 0; i < nf; ++i)
    {
        m.value.push_back(mk<T>(base + 10 + int(i))), m.refValue.push_back(mk<T>(base + 20 + int(i)));
        m.refGrad.push_back(mk<T>(base + 30 + int(i))), m.fraction.push_back(base + 40 + 0.25 * double(i));
    }
    for (size_t i = 0; i < np; ++i) m.types.push_back(base + 50 + int(i));
    put(b.value(), m.value), put(b.refValue(), m.refValue), put(b.refGrad(), m.refGrad), put(b.valueFraction(), m.fraction);
    put(const_cast<Field<int>&>(b.boundaryTypes()), m.types);
}
template<typename T>
void sized(const BoundaryFields<T>& b, const Model<T>& m, const char* w)
{
    size_t nf = m.off.back(), np = m.off.size() - 1;
    MC_CHECK(b.value().size() == nf && b.refValue().size() == nf && b.valueFraction().size() == nf && b.refGrad().size() == nf, "component-size", w, ": a component has not one entry per boundary face (", nf, ")");
    MC_CHECK(b.boundaryTypes().size() == np, "component-size", w, ": there are ", b.boundaryTypes().size(), " boundary types for ", np, " patches");
}
template<typename T>
void editAll(DomainField<T>& d, Model<T>& m, int base, int comp)
{
    auto edit = [&](auto& f, auto& v, int k)
    {
        using V = std::decay_t<decltype(v[0])>;
        for (size_t i = 0; i < v.size(); ++i) v[i] = mk<V>(base + k + int(i));
        put(f, v);
    };
    auto& b = d.boundaryField();
    if (comp == 0) edit(d.internalField(), m.internal, 1000);
    if (comp == 1) edit(b.value(), m.value, 2000);
    if (comp == 2) edit(b.refValue(), m.refValue, 3000);
    if (comp == 3) edit(b.valueFraction(), m.fraction, 4000);
    if (comp == 4) edit(b.refGrad(), m.refGrad, 5000);
    if (comp == 5) edit(const_cast<Field<int>&>(b.boundaryTypes()), m.types, 6000);
}

// ---- layouts ------------------------------------------------------------------------------
template<typename T>
void layouts()
{
    int e = mc::thorough() ? pick().e : pick2().e;
    Model<T> m;
    m.e = e;
    m.off = pickOffsets(3, mc::thorough() ? 3 : 2);
    std::size_t before = kk::liveBlocks();
    {
        BoundaryFields<T> b(execOf(e), m.off);
        MC_STEP("boundary fields with offsets ", show(m.off), " on ", EXEC[e]);
        sized(b, m, "new boundary fields");
        fillAll(b, m, 0);
        checkBoundary(b, m, "new boundary fields");
        int how = choose(3, "copy");
        int e2 = how == 1 ? pickExec() : e;
        Model<T> m2 = m;
        std::unique_ptr<BoundaryFields<T>> c;
        if (how == 0) c = std::make_unique<BoundaryFields<T>>(b);
        else if (how == 1) m2.e = e2, c = std::make_unique<BoundaryFields<T>>(execOf(e2), b);
        else
        {
            // assigned over boundary fields of another layout
            c = std::make_unique<BoundaryFields<T>>(execOf(e), few());
            *c = b;
        }
        MC_STEP("copy ", how, " to ", EXEC[m2.e]);
        checkBoundary(*c, m2, "the copy");
        // independence in both directions
        if (choose(2, "edit the copy")) fillAll(*c, m2, 100);
        else fillAll(b, m, 200);
        checkBoundary(b, m, "the source after an edit");
        checkBoundary(*c, m2, "the copy after an edit");
        if (choose(2, "drop the source") == 0) c.reset(), checkBoundary(b, m, "the source after the copy is gone");
        else
        {
            {
                BoundaryFields<T> moved(std::move(b));
                checkBoundary(moved, m, "the moved-to object");
            }
            checkBoundary(*c, m2, "the copy after the source is gone");
        }
    }
    MC_CHECK(kk::liveBlocks() == before, "leak", kk::liveBlocks() - before, " blocks left");
}

// ---- histories over domain fields ------------------------------------------------------------
template<typename T>
struct World
{
    static constexpr int S = 2;
    std::unique_ptr<DomainField<T>> f[S];
    Model<T> m[S];
    int base = 0;
    std::size_t before = kk::liveBlocks();
    void check(const std::string& what)
    {
        for (int a = 0; a < S; ++a)
        {
            if (!f[a]) continue;
            std::string w = mc::cat("after ", what, ": domain field ", a);
            MC_CHECK(indexOf(f[a]->exec()) == m[a].e, "executor", w, " reports ", EXEC[indexOf(f[a]->exec())], ", expected ", EXEC[m[a].e]);
            MC_CHECK(indexOf(f[a]->internalField().exec()) == m[a].e, "executor", w, ": the internal field is on ", EXEC[indexOf(f[a]->internalField().exec())]);
            const DomainField<T>& c = *f[a];
            MC_CHECK(&c.internalField() == &f[a]->internalField() && &c.boundaryField() == &f[a]->boundaryField(), "accessor", w, ": constant and modifiable access differ");
            checkField(c.internalField(), m[a].internal, "internal", w + ": internal field");
            checkBoundary(c.boundaryField(), m[a], w);
        }
    }
    void fillNew(int d)
    {
        base += 100;
        std::vector<T> in;
        for (size_t i = 0; i < f[d]->internalField().size(); ++i) in.push_back(mk<T>(base + int(i)));
        m[d].internal = in;
        put(f[d]->internalField(), in);
        fillAll(f[d]->boundaryField(), m[d], base);
    }
    void construct(int d)
    {
        int e = pickExec(), how = choose(4, "constructor");
        f[d].reset();
        m[d] = Model<T> {};
        m[d].e = e;
        Executor ex = execOf(e);
        std::string what = mc::cat("construction ", how, " of ", d, " on ", EXEC[e]);
        MC_STEP(what);
        size_t nc = how == 3 ? 0 : size_t(choose(2, "cells")) * 2;
        if (how == 0)
        {
            m[d].off = few();
            f[d] = std::make_unique<DomainField<T>>(ex, nc, m[d].off);
        }
        else if (how == 1)
        {
            m[d].off = few();
            int e2 = pickExec();
            auto src = make(execOf(e2), std::vector<T>(nc, mk<T>(7)));
            f[d] = std::make_unique<DomainField<T>>(ex, src, m[d].off);
            checkField(f[d]->internalField(), std::vector<T>(nc, mk<T>(7)), "internal", "after " + what);
        }
        else if (how == 2)
        {
            MeshData md = nc ? line(std::vector<scalar> {0, 1, 3}) : grid({0, 1}, {0, 1, 2}, {0, 1, 0, 1});
            m[d].off = md.off;
            auto mesh = md.make(ex);
            f[d] = std::make_unique<DomainField<T>>(ex, mesh);
            MC_CHECK(f[d]->internalField().size() == md.nCells(), "internal", "after ", what, ": ", f[d]->internalField().size(), " internal entries for ", md.nCells(), " cells");
        }
        else
        {
            m[d].off = {0};
            if constexpr (requires { DomainField<T>(std::declval<const NeoFOAM::DomainField<T>&>()); }) f[d] = std::make_unique<DomainField<T>>(ex);
            MC_CHECK(f[d]->internalField().size() == 0, "internal", "after ", what, ": an empty domain field has ", f[d]->internalField().size(), " entries");
        }
        sized(f[d]->boundaryField(), m[d], ("after " + what).c_str());
        fillNew(d);
        check(what);
    }
    void op()
    {
        int a = choose(S, "field"), b = 1 - a;
        if (!f[a]) return construct(a);
        int k = choose(f[b] ? 7 : 4, "operation");
        std::string what;
        switch (k)
        {
        case 0:
        {
            int comp = choose(6, "component");
            what = mc::cat("editing component ", comp, " of ", a);
            MC_STEP(what);
            base += 10000;
            editAll(*f[a], m[a], base, comp);
            break;
        }
        case 1: // copy construct into b
            what = mc::cat("copying ", a, " to ", b);
            MC_STEP(what);
            f[b] = std::make_unique<DomainField<T>>(*f[a]);
            m[b] = m[a];
            break;
        case 2: // copy to executor into b
        {
            int e = pickExec();
            what = mc::cat("copying ", a, " to ", b, " on ", EXEC[e]);
            MC_STEP(what);
            f[b] = std::make_unique<DomainField<T>>(execOf(e), f[a]->internalField(), f[a]->boundaryField());
            m[b] = m[a];
            m[b].e = e;
            break;
        }
        case 3: // move construct into b; a is gone
            what = mc::cat("moving ", a, " to ", b);
            MC_STEP(what);
            f[b] = std::make_unique<DomainField<T>>(std::move(*f[a]));
            f[a].reset();
            m[b] = m[a];
            break;
        case 4:
            if (m[a].e != m[b].e) mc::prune();
            what = mc::cat("assigning ", b, " to ", a);
            MC_STEP(what);
            *f[a] = *f[b];
            m[a] = m[b];
            break;
        case 5:
            if (m[a].e != m[b].e) mc::prune();
            what = mc::cat("move-assigning ", b, " to ", a);
            MC_STEP(what);
            *f[a] = std::move(*f[b]);
            f[b].reset();
            m[a] = m[b];
            break;
        default:
            what = mc::cat("dropping ", a);
            MC_STEP(what);
            f[a].reset();
        }
        check(what);
    }
};
template<typename T>
void history(int depth)
{
    kk::begin(kk::Forward);
    World<T> w;
    w.construct(0);
    for (int i = 0; i < depth; ++i) w.op();
    w.f[0].reset();
    w.f[1].reset();
    MC_CHECK(kk::liveBlocks() == w.before, "leak", kk::liveBlocks() - w.before, " blocks left at the end");
}
}
MC_SCENARIO(layouts_scalar, "every layout of up to 3 patches with 0..2 faces x executors x orders x copy kind x target executor x edits") { layouts<scalar>(); }
MC_SCENARIO(layouts_vector, "the same for vectors") { layouts<Vector>(); }
MC_SCENARIO(layouts_label, "the same for labels") { layouts<label>(); }
MC_SCENARIO(history_scalar, "all histories of construct, copy, convert, move, assign, edit, drop over two domain fields, 2 operations after the first construction (3 thorough)") { history<scalar>(mc::thorough() ? 3 : 2); }
MC_SCENARIO(history_vector, "the same for vectors, 1 operation (2 thorough)") { history<Vector>(mc::thorough() ? 2 : 1); }
MC_SCENARIO(patch_ranges, "boundary patch mixin: every layout up to 3 patches of 0..2 faces and every patch of it; explicit ranges")
{
    int e = pickExec();
    kk::begin(kk::Forward);
    if (choose(2, "explicit"))
    {
        int s = choose(4, "start"), n = choose(4, "size"), id = choose(3, "id");
        fvcc::BoundaryPatchMixin p(s, s + n, size_t(id));
        MC_STEP("patch ", id, " of [", s, ",", s + n, ")");
        MC_CHECK(p.patchStart() == s && p.patchEnd() == s + n && p.patchSize() == size_t(n) && p.patchID() == size_t(id) && p.range() == (std::pair<size_t, size_t> {size_t(s), size_t(s + n)}), "patch-range", "patch [", s, ",", s + n, "): start ", p.patchStart(), " end ", p.patchEnd(), " size ", p.patchSize(), " range ", p.range().first, " ", p.range().second);
        return;
    }
    std::vector<std::vector<int>> patches(size_t(1 + choose(3, "patches")));
    for (auto& p : patches)
        for (int n = choose(3, "faces"); n > 0; --n) p.push_back(n % 2);
    MeshData md = abstractMesh(2, {{0, 1}}, patches);
    auto mesh = md.make(execOf(e));
    for (size_t p = 0; p < patches.size(); ++p)
    {
        fvcc::BoundaryPatchMixin b(mesh, p);
        MC_STEP("patch ", p, " of ", show(md.off));
        MC_CHECK(b.patchID() == p && b.patchStart() == label(md.off[p]) && b.patchEnd() == label(md.off[p + 1]) && b.patchSize() == md.off[p + 1] - md.off[p] && b.range() == (std::pair<size_t, size_t> {md.off[p], md.off[p + 1]}), "patch-range", "patch ", p, " of offsets ", show(md.off), ": start ", b.patchStart(), " end ", b.patchEnd(), " size ", b.patchSize(), " range ", b.range().first, " ", b.range().second);
    }
}
